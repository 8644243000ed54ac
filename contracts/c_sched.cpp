#include <gv/gv.hpp>
#ifdef GV_NATIVE
#include <gv/sched.hpp>
#include <task_scheduler.cpp>
#include <thread_pool.cpp>
#include <map>
#include <string>
#include <vector>
unsigned std::thread::hardware_concurrency() noexcept { return 4; }
using sched = tc::sdk::task_scheduler; using ns = std::chrono::nanoseconds;
static tc::sdk::clock::time_point at_ns(int64_t t) { return tc::sdk::clock::time_point(ns(t)); }
static void until(int64_t t) { if (t > gv_now_ns()) std::this_thread::sleep_until(at_ns(t)); }
static std::string name(int k) { return k < 0 ? "" : std::string(1 + k % 3, 'a' + k); }
// tasks fall due at multiples of 100 (or on a grid from the step that added them) after the start, the controlling thread acts in between; time passes only when every thread sleeps, so a
// task must run at exactly its due time
struct Mdl { int id; int64_t next, interval; bool enabled; int tag; };
struct Run { int tag; int64_t t; bool operator<(const Run& o) const { return t != o.t ? t < o.t : tag < o.tag; } bool operator==(const Run&) const = default; };
static void history(bool manage, bool query, int nsteps)
{
    const int steps = gv_any_range("steps", 1, nsteps), workers = gv_any_range("workers", 1, 3); const bool spurious = gv::any<bool>("spurious");
    gv::schedule("the scheduler's operations return", [&] {
        gv_time_only_idle(true); gv_no_spurious(!spurious);
        sched s; std::vector<Run> log, want; std::vector<Mdl> m; int tags = 0; std::vector<std::future<int>> fu; std::vector<int> fv; bool held = false;
        gv::ensures(!s.every(ns(10), [] {}) && !s.at(gv_now_ns() >= 0 ? tc::sdk::clock::now() : tc::sdk::clock::now(), [] {}).has_value() && s.tasks_size() == 0, "a stopped scheduler accepts no task");
        gv::ensures(s.start(workers), "start succeeds on a stopped scheduler"); gv::ensures(!s.start(1), "start fails on a running scheduler");
        const int64_t t0 = gv_now_ns(); int64_t now = t0 + 5; int stepno = 0; until(now);
        auto advance = [&](int64_t to) { // the model: everything due at or before `to`
            for (bool more = true; more;) { more = false; size_t best = 0; for (size_t k = 0; k < m.size(); ++k) if (m[k].next <= to && (!more || m[k].next < m[best].next)) { best = k; more = true; }
                if (more) { auto& x = m[best]; const int64_t when = std::max(x.next, now); if (x.enabled) want.push_back({x.tag, when}); if (!x.interval) { m.erase(m.begin() + best); continue; } x.next += x.interval; while (x.next < when) x.next += x.interval; } }
        };
        auto find = [&](int id) { for (size_t k = 0; k < m.size(); ++k) if (m[k].id == id && id >= 0) return (int)k; return -1; };
        for (int k = 0; k < steps; ++k)
        {
            const int op = gv_any_range("op", 0, manage ? 9 : 4), id = gv_any_range("id", 0, 3); const int64_t d = 100 * gv_any_range("delay", -2, 12) - 5 - ++stepno, iv = 100 * gv_any_range("interval", 1, 5); until(++now); const int tag = tags++;
            auto body = [&log, &held, tag] { held |= gv_mutexes_held() != 0; log.push_back({tag, gv_now_ns()}); };
            const int at = find(id);
            if (op == 0) { auto f = s.at(at_ns(now + d), [&log, tag](int v) { log.push_back({tag, gv_now_ns()}); return v; }, tag + 1); gv::ensures(f.has_value(), "a task without id is always accepted"); fu.push_back(std::move(*f)); fv.push_back(tag + 1); m.push_back({-1, now + d, 0, true, tag}); }
            else if (op == 1) { auto f = s.in(name(id), ns(d), body); gv::ensures(f.has_value() == (at < 0), "a second task with a pending id is refused, any other is accepted"); if (at < 0) m.push_back({id, now + d, 0, true, tag}); }
            else if (op == 2) { const bool r = s.every(name(id), ns(iv), ns(d), body); gv::ensures(r == (at < 0), "a second task with a pending id is refused, any other is accepted"); if (at < 0) m.push_back({id, now + d, iv, true, tag}); }
            else if (op == 3) { if (gv::any<bool>("id ")) { const bool r = s.every(name(id), ns(iv), body); gv::ensures(r == (at < 0), "a second task with a pending id is refused, any other is accepted"); if (at < 0) m.push_back({id, now, iv, true, tag}); } else { gv::ensures(s.every(ns(iv), body), "a task without id is always accepted"); m.push_back({-1, now, iv, true, tag}); } }
            else if (op == 4) { const int64_t to = now + 100 * gv_any_range("sleep", 0, 6); advance(to); now = to; until(now); }
            else if (op == 5) { const bool b = gv::any<bool>("enabled"); gv::ensures(s.set_enabled(name(id), b) == (at >= 0), "set_enabled answers for the pending task with that id"); if (at >= 0) m[at].enabled = b; }
            else if (op == 6) { gv::ensures(s.remove_task(name(id)) == (at >= 0), "remove_task answers for the pending task with that id"); if (at >= 0) m.erase(m.begin() + at); }
            else if (op == 7) { const bool ok = at >= 0 && m[at].interval; gv::ensures(s.update_interval(name(id), ns(iv)) == ok, "update_interval answers for the pending periodic task with that id"); if (ok) { auto& x = m[at]; x.next -= x.interval; while (now > x.next) x.next += iv; x.interval = iv; } }
            else { const bool e = s.is_enabled(name(id)); auto g = s.get_interval(name(id)); gv::ensures(s.is_scheduled(name(id)) == (at >= 0), "is_scheduled answers for the pending task with that id"); gv::ensures(e == (at >= 0 && m[at].enabled), "is_enabled answers for the pending task with that id"); gv::ensures(g.has_value() == (at >= 0 && m[at].interval) && (!g || g->count() == m[at].interval), "get_interval answers for the pending task with that id"); }
            advance(now); gv_settle();
            gv::ensures(gv_now_ns() == now, "operations do not take time");
            if (query) { gv::ensures(s.tasks_size() == m.size(), "exactly the tasks scheduled and not yet run or removed are pending"); for (int q = 0; q < 4; ++q) { const int a = find(q); gv::ensures(s.is_scheduled(name(q)) == (a >= 0), "other tasks are left untouched"); gv::ensures(s.is_enabled(name(q)) == (a >= 0 && m[a].enabled), "other tasks are left untouched"); auto g = s.get_interval(name(q)); gv::ensures(g.has_value() == (a >= 0 && m[a].interval) && (!g || g->count() == m[a].interval), "other tasks are left untouched"); } }
            std::sort(log.begin(), log.end()); std::sort(want.begin(), want.end());
            for (auto& r : log) { bool ok = false; for (auto& w : want) ok |= w.tag == r.tag && w.t <= r.t; gv::ensures(ok, "no task runs before its due time, when disabled or when removed"); }
            gv::ensures(log == want, "every enabled due task is submitted exactly once, at its due time; others are not");
        }
        for (size_t k = 0; k < fu.size(); ++k) if (fu[k].wait_for(ns(0)) == std::future_status::ready) gv::ensures(fu[k].get() == fv[k], "the future yields the task's result");
        gv::ensures(s.stop(), "stop succeeds on a running scheduler"); gv::ensures(!s.stop(), "stop fails on a stopped scheduler");
        gv::ensures(gv_live_threads() == 0 && s.tasks_size() == 0 && gv_now_ns() == now && !held, "stop leaves no pending task and no thread");
    });
}
GV_CONTRACT(C08, sched_due) { history(false, false, 8); }
GV_CONTRACT(C08, sched_managed) { history(true, false, 10); }
GV_CONTRACT(C09, sched_ids) { history(true, true, 10); }
// time may pass at any moment: nothing runs early, a one-shot runs once, a periodic task at most once per grid point
GV_CONTRACT(C08, sched_late)
{
    const int n = gv_any_range("one-shots", 0, 3), p = gv_any_range("periodic", 0, 2), workers = gv_any_range("workers", 1, 2);
    int64_t d[3], iv[2], dl[2]; for (auto& x : d) x = gv_any_range("delay", -20, 100); for (auto& x : iv) x = gv_any_range("interval", 5, 40); for (auto& x : dl) x = gv_any_range("first", 0, 50); const int64_t stop = gv_any_range("stop", 0, 150);
    gv::schedule("the scheduler's operations return", [&] {
        sched s; s.start(workers); int runs[3] = {0, 0, 0}; bool early = false; std::vector<int64_t> pr[2]; int64_t first[2] = {0, 0}, due[3]; std::vector<std::future<void>> fu;
        for (int k = 0; k < n; ++k) { due[k] = gv_now_ns() + d[k]; fu.push_back(std::move(*s.in(ns(d[k]), [&, k] { runs[k]++; early |= gv_now_ns() < due[k]; }))); }
        for (int k = 0; k < p; ++k) { first[k] = gv_now_ns() + dl[k]; s.every(name(k), ns(iv[k]), ns(dl[k]), [&, k] { pr[k].push_back(gv_now_ns()); }); }
        std::this_thread::sleep_for(ns(stop));
        for (auto& f : fu) f.get();
        s.stop(); const int64_t end = gv_now_ns();
        gv::ensures(!early, "no task runs before its due time");
        for (int k = 0; k < n; ++k) gv::ensures(runs[k] == 1, "a one-shot task is submitted exactly once");
        for (int k = 0; k < p; ++k) { std::sort(pr[k].begin(), pr[k].end()); for (size_t j = 0; j < pr[k].size(); ++j) gv::ensures(pr[k][j] >= first[k] + (int64_t)j * iv[k], "a periodic task is submitted at most once per grid point and not before it"); }
        (void)end;
    });
}
GV_CONTRACT(C09, sched_concurrent_ids)
{
    const int n = gv_any_range("threads", 2, 3); const bool periodic = gv::any<bool>("periodic");
    gv::schedule("the scheduler's operations return", [&] {
        gv_time_only_idle(true); sched s; s.start(1); int ok = 0, runs = 0, removed = 0; std::vector<std::thread> th;
        for (int k = 0; k < n; ++k) th.emplace_back([&] { const bool r = periodic ? s.every(std::string("id"), ns(1000), ns(50), [&] { ++runs; }) : s.in(std::string("id"), ns(50), [&] { ++runs; }).has_value(); ok += r; });
        for (auto& t : th) t.join();
        gv::ensures(ok == 1 && s.tasks_size() == 1, "of concurrent requests with one id exactly one is accepted");
        th.clear(); for (int k = 0; k < n; ++k) th.emplace_back([&] { removed += s.remove_task("id"); });
        for (auto& t : th) t.join();
        gv::ensures(removed == 1 && s.tasks_size() == 0, "of concurrent removals of one id exactly one succeeds"); std::this_thread::sleep_for(ns(100)); gv::ensures(runs == 0, "a removed task does not run");
    });
}
// a task added, or re-timed, to fall due before what the scheduler sleeps for runs at its due time
GV_CONTRACT(C10, sched_early)
{
    const int n = gv_any_range("tasks", 1, 4); int64_t d[4]; for (auto& x : d) x = gv_any_range("delay", 0, 300); const bool conc = gv::any<bool>("concurrent"), retime = gv::any<bool>("retime"); const int64_t at = gv_any_range("at", 0, 99), iv = gv_any_range("interval", 1, 300), old = gv_any_range("old", 200, 900); 
    gv::schedule("the scheduler's operations return", [&] {
        gv_time_only_idle(true); sched s; s.start(2); std::vector<int64_t> ran(n, -1), due(n); std::vector<std::thread> th; int64_t first = -1, base = gv_now_ns();
        if (retime) s.every(std::string("p"), ns(old), ns(old), [&] { if (first < 0) first = gv_now_ns(); });
        auto add = [&](int k) { due[k] = gv_now_ns() + d[k]; s.in(ns(d[k]), [&, k] { ran[k] = gv_now_ns(); }); };
        for (int k = 0; k < n; ++k) if (conc) th.emplace_back([&, k] { add(k); }); else add(k);
        int64_t want = base + old; if (retime) { std::this_thread::sleep_for(ns(at)); s.update_interval("p", ns(iv)); want = base; while (gv_now_ns() > want) want += iv; }
        for (auto& t : th) t.join();
        std::this_thread::sleep_for(ns(2000));
        for (int k = 0; k < n; ++k) gv::ensures(ran[k] == due[k], "a task added to fall due earlier wakes the scheduler thread");
        if (retime) gv::ensures(first == want, "a task re-timed to fall due earlier wakes the scheduler thread");
    });
}
GV_CONTRACT(C10, sched_stop)
{
    const int n = gv_any_range("tasks", 0, 2), rounds = gv_any_range("rounds", 1, 3); int64_t d[2]; for (auto& x : d) x = gv_any_range("delay", 0, 5000); const int64_t pause = gv_any_range("pause", 0, 3); const bool other = gv::any<bool>("add during stop"), dtor = gv::any<bool>("destructor"), idle = gv::any<bool>("idle"), per = gv::any<bool>("periodic");
    gv::schedule("stop terminates", [&] {
        gv_time_only_idle(true);
        for (int r = 0; r < rounds; ++r)
        {
            auto s = std::make_unique<sched>(); std::thread t; int after = 0; bool stopped = false;
            gv::ensures(s->start(1), "start succeeds on a stopped scheduler");
            if (idle) gv_settle();
            for (int k = 0; k < n; ++k) if (per) s->every(ns(d[k] + 1), [&] { after += stopped; }); else s->in(ns(d[k]), [&] { after += stopped; });
            if (pause) std::this_thread::sleep_for(ns(pause));
            if (other) t = std::thread([&] { s->in(ns(3000), [&] { after += stopped; }); });
            const int64_t b = gv_now_ns();
            if (dtor && !other) { s.reset(); gv::ensures(gv_live_threads() == 0, "no scheduler thread is left"); }
            else { gv::ensures(s->stop(), "stop succeeds on a running scheduler"); stopped = true; if (t.joinable()) t.join(); gv::ensures(gv_live_threads() == 0, "no scheduler thread is left"); gv::ensures(s->tasks_size() == 0, "stop leaves no pending task"); }
            gv::ensures(gv_now_ns() == b, "stop does not wait for a task that is not running"); gv::ensures(after == 0, "no task runs after stop");
            if (s) { int x = 0; gv::ensures(s->start(2), "a stopped scheduler can be started again"); auto f = s->in(ns(7), [&] { x = 1; }); gv::ensures(f.has_value(), "a running scheduler accepts tasks"); if (f) f->get(); gv::ensures(x == 1, "a restarted scheduler runs tasks"); gv::ensures(after == 0, "no task scheduled before stop runs after it"); }
        }
    });
}
GV_CONTRACT(C10, sched_race)
{
    const bool first = gv::any<bool>("running first");
    gv::schedule("start and stop return", [&] {
        gv_time_only_idle(true); auto s = std::make_unique<sched>(); if (first) s->start(1);
        std::thread t([&] { s->stop(); }); const bool r = s->start(1); t.join();
        gv::ensures(first || r, "start succeeds on a stopped scheduler");
        s.reset(); gv::ensures(gv_live_threads() == 0, "no scheduler thread is left");
    });
}
#else
// Monitor proof. The scheduler is known only through its monitor invariants: the lifecycle (running flag, scheduler thread, pool) under the mutex L, the
// pending tasks under the mutex T, the scheduler thread asleep until a deadline. The pending tasks are an arbitrary witness task and unknown others.
#include "stubs/atomics.hpp"
#include "stubs/threads.hpp"
#include "stubs/future.hpp"
#include "stubs/mapw.hpp"
#include <string>
#include <teiacare/sdk/thread_pool.hpp>
#include <teiacare/sdk/task_scheduler.hpp>
#include <task_scheduler.cpp>
using sched = tc::sdk::task_scheduler; using st_t = sched::schedulable_task; using map_t = decltype(sched::_tasks); using ns = std::chrono::nanoseconds; using dur = tc::sdk::clock::duration;
alignas(sched) static unsigned char mem_[sizeof(sched)];
static int prop_; // 8: due times (C08), 9: ids (C09), 10: wake-ups and stop (C10)
static void due(bool c, const char* l) { if (prop_ == 8) gv::ensures(c, l); }
static void ids(bool c, const char* l) { if (prop_ == 9) gv::ensures(c, l); }
static void wake(bool c, const char* l) { if (prop_ == 10) gv::ensures(c, l); }
enum { OTHER, SCHED, ADD, RETIME, START, STOP, DEAD };
static int mode_, discover_, discipline_; static bool body_; // the scheduler thread's function is running
static void *L_, *T_, *cv_; static const volatile void* flag_; static map_t* map_; static std::thread* thr_;
extern "C" bool gv_multiple(int64_t a, int64_t b); // a is a multiple of b
extern "C" void gv_shared(void* p, uint64_t n); // scalars in these bytes may have been changed by other threads
extern "C" void gv_forget(); // conditions on values nothing depends on any more
extern "C" void gv_drift(int64_t* p); // at loop heads *p may be any value from the one it had when the loop was entered on
// clock
static int64_t now_, n0_; static bool read_; // the last and the first reading in this critical section
static int64_t r0_, r1_; static bool clock_; // in this operation
static bool put_; static int64_t putat_; // the last reading when the witness was put into a table again
static int64_t deadline_, dueby_, until_; static bool slept_, overdue_, timed_;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    const int64_t n = gv::instant("now"); if (read_) gv_assume(n >= now_); else { read_ = true; n0_ = n; } now_ = n; if (mode_ == ADD || mode_ == RETIME) { if (!clock_) { clock_ = true; r0_ = n; } r1_ = n; }
    if (slept_ && !overdue_ && n >= deadline_) { overdue_ = true; dueby_ = deadline_; }
    return gv::at_ns(n);
}
size_t std::_Hash_bytes(const void*, size_t, size_t);
static size_t h_; static int match_; // the hash of the id asked for; 1: the witness has that id, 2: another task has, 3: none has
// the witness task
static tc::sdk::task* wtask_; static int subs_; static gv::Job* kept_; static bool keptsub_;
struct Ghost { bool witness; void operator()() { if (witness) ++subs_; } };
struct Attr { bool on, enabled, periodic, id; int64_t key, interval; size_t hash; };
static Attr pre_; static bool known_, moved_;
static Attr attr(const std::pair<const gv::tpoint, st_t>& p) { Attr a{true, p.second.is_enabled(), p.second.interval().has_value(), p.second.hash().has_value(), gv::ns(p.first), 0, 0}; if (a.periodic) a.interval = p.second.interval()->count(); if (a.id) a.hash = *p.second.hash(); return a; }
static void arbitrary(st_t& v, bool witness, const st_t* w)
{
    v._is_enabled = gv::any<bool>("enabled");
    v._interval = dur(gv_any_range("interval", 1, 1ll << 58)); if (!gv::any<bool>("periodic")) v._interval.reset();
    const size_t h = gv::count("hash"); v._hash = h; const bool id = gv::any<bool>("id"); if (!id) v._hash.reset();
    if (witness) gv_assume(match_ == 0 | ((match_ == 1) == (id & h == h_))); else { if (match_ == 1 | match_ == 3) gv_assume(!id | h != h_); if (w && w->_hash) gv_assume(!id | h != *w->_hash); }
}
namespace gv
{
template <> struct MapItems<st_t>
{
    static void born(map_t& m) { if (!map_) map_ = &m; else m.s.rest = 2; } static void died(map_t& m) { if (map_ == &m) map_ = nullptr; }
    static bool is_witness(const st_t& v) { gv::ensures(v._task != nullptr, "a pending task keeps its function"); const bool w = wtask_ && v._task.get() == wtask_; if (w && !put_ && read_ && mode_ == SCHED) { put_ = true; putat_ = now_; } return w; }
    static bool keep(map_t& m, const std::pair<const gv::tpoint, st_t>&) { return &m == map_ && mode_ == ADD; }
    static st_t other(const st_t* w) { st_t v(Ghost{false}, 1, dur(1)); arbitrary(v, false, w); return v; }
    static void sync(map_t& m); static void merged(map_t& m);
};
}
struct Sleep { bool asleep, owe, timed; int64_t until; }; static Sleep sl_; static bool debt_, F_, saw_false_, checked_; static int changes_, refused_, added_; static Attr new_, was_; static int calls_, got_; static bool wasF_;
// lifecycle
static bool R_, fstop_, fstart_, dsec_, allwoken_, joined_, spawned_, pstop_, pstart_, submitted_late_;
void gv::MapItems<st_t>::sync(map_t& m)
{
    gv::ensures(gv::holds(T_), "the tasks are only touched under their mutex");
    known_ = true; pre_ = Attr{}; if (discover_) { F_ = true; return; }
    F_ = gv::any<bool>("running "); const bool w = gv_split(gv::any<bool>("witness pending")); m.s.rest = gv::any<bool>("others pending"); gv_assume(F_ | !(w | m.s.rest));
    if (mode_ == STOP || mode_ == START) gv_assume(F_ == (fstop_ ? false : fstart_ ? true : R_));
    if (match_ == 1) gv_assume(w);
    if (w) { std::pair<const gv::tpoint, st_t> p(gv::at_ns(gv::instant("due")), st_t(Ghost{true}, 1, dur(1))); arbitrary(p.second, true, nullptr); wtask_ = p.second._task.get(); m.w.set(std::move(p)); pre_ = attr(m.w.get()); }
    if (mode_ == SCHED) { if (saw_false_) gv_assume(!F_); return; }
    sl_.asleep = gv::any<bool>("asleep"); sl_.owe = gv::any<bool>("notification to come"); sl_.timed = gv::any<bool>("until a deadline"); sl_.until = gv::instant("deadline");
    gv_assume(!sl_.asleep | sl_.owe | (sl_.timed ? !w | sl_.until <= pre_.key : !w & !m.s.rest));
}
static void tclear() { map_->w.drop(); map_->x.drop(); map_->tmp.drop(); map_->s = {}; map_->s.stale = true; known_ = false; checked_ = false; pre_ = {}; sl_ = {}; F_ = false; wtask_ = nullptr; gv::deadline = 0; slept_ = overdue_ = false; deadline_ = dueby_ = 0; read_ = false; now_ = n0_ = 0; put_ = false; putat_ = 0; gv_merge(); gv_shared(mem_, sizeof(sched)); gv_forget(); }
void gv_on_acquire(void* m)
{
    if (mode_ == DEAD) return;
    if (discover_ == 2 && !L_) L_ = m; else if (discover_ == 3 && !T_) T_ = m;
    if (m == L_ && !discover_) { wake(!body_, "the scheduler thread does not take the lifecycle mutex"); wake(!gv::holds(T_), "the lifecycle mutex is taken first"); R_ = mode_ != SCHED && gv::any<bool>("running"); *(bool*)flag_ = R_; thr_->_M_id = R_ ? gv::running_id() : std::thread::id(); fstop_ = fstart_ = dsec_ = allwoken_ = joined_ = spawned_ = pstop_ = pstart_ = false; }
    if (m == T_) { const bool r = read_; const int64_t n = now_, n0 = n0_; tclear(); if (mode_ != SCHED) { read_ = r; now_ = n; n0_ = n0; } }
}
static void submissions()
{
    if (kept_) { const int b = subs_; kept_->invoke(); due(subs_ == b + 1, "a submitted task stays what it was when it is run later"); subs_ = b; delete kept_; kept_ = nullptr; }
}
void gv::MapItems<st_t>::merged(map_t& m) { if (mode_ == SCHED && &m == map_) { submissions(); if (prop_ == 8) gv_tag(m.w.on | pre_.on << 1 | put_ << 2 | (subs_ == 0) << 3 | (subs_ == 1) << 4); else gv_merge(); } }
void gv_on_release(void* m)
{
    if (mode_ == DEAD || discover_) return;
    if (m == L_)
    {
        const bool f = *(bool*)flag_, alive = thr_->joinable(), pool = R_ ? !pstop_ | pstart_ : pstart_ & !pstop_;
        wake(f == alive, "the scheduler thread lives exactly while the scheduler runs"); wake(f == pool, "the workers run exactly while the scheduler runs");
        if (R_ & !f) wake(dsec_, "when stop returns no task is pending");
        if (f != R_) ++changes_; else wake(!fstop_ & !fstart_ & !spawned_ & !joined_, "start on a running scheduler and stop on a stopped one change nothing");
    }
    if (m != T_) return;
    if (!known_) { map_->s.stale = false; gv::MapItems<st_t>::sync(*map_); }
    map_t& q = *map_; Attr post{}; bool twice = false;
    if (q.w.on) { gv::ensures(q.w.get().second._task != nullptr, "a pending task keeps its function"); post = attr(q.w.get()); }
    if (q.x.on && gv::MapItems<st_t>::is_witness(q.x.get().second)) { twice = post.on; post = attr(q.x.get()); }
    due(!twice, "a task is pending once"); ids(!twice, "a task is pending once");
    const bool same = post.on & pre_.on & post.key == pre_.key & post.enabled == pre_.enabled & post.periodic == pre_.periodic & post.interval == pre_.interval & post.id == pre_.id & post.hash == pre_.hash;
    const bool own = post.enabled == pre_.enabled & post.periodic == pre_.periodic & post.interval == pre_.interval & post.id == pre_.id & post.hash == pre_.hash;
    submissions();
    if (mode_ == SCHED)
    {
        if (!pre_.on) due(subs_ == 0 & !post.on, "a task that is not pending is not run");
        else if (!(same & subs_ == 0))
        {
            due(read_ & pre_.key <= now_, "no task is run or dropped before its due time");
            due(subs_ == pre_.enabled, "a due task is submitted exactly once if it is enabled, and not at all if it is disabled");
            if (!pre_.periodic) due(!post.on, "a one-shot task that was processed is forgotten");
            else
            {
                due(post.on, "a periodic task that was processed stays pending"); if (!post.on) return; due(own, "a periodic task keeps its id, interval and enabled flag");
                due(gv_multiple(post.key - pre_.key, pre_.interval) && post.key > pre_.key, "a periodic task is rescheduled on its grid"); due(post.key >= n0_, "a periodic task is not rescheduled in the past"); due(post.key - pre_.interval < (put_ ? putat_ : now_) | post.key == pre_.key + pre_.interval, "a periodic task is rescheduled at the first point of its grid that is not in the past");
            }
            gv::cover("processed");
        }
        due(!(overdue_ & same & subs_ == 0 & !saw_false_) | pre_.key > dueby_, "a task that is due when the scheduler thread's sleep ends is processed");
        ids(!pre_.id | !post.on | (post.id & post.hash == pre_.hash), "a task keeps its id");
    }
    else
    {
        due(subs_ == 0, "only the scheduler thread runs tasks");
        if (mode_ == STOP) { if (pre_.on) { wake(fstop_ | same, "only stop drops pending tasks"); ids(post.on ? same : fstop_, "only stop drops pending tasks"); } if (fstop_) { dsec_ = q.empty(); } }
        else if (match_ != 1 || mode_ == ADD) { ids(pre_.on == post.on & (same | !pre_.on), "other tasks are left untouched"); due(pre_.on == post.on & (same | !pre_.on), "other tasks are left untouched"); }
        else { moved_ = post.on; new_ = post; was_ = pre_; ++changes_; ids(subs_ == 0, "only the scheduler thread runs tasks"); }
        if (q.x.on && !gv::MapItems<st_t>::is_witness(q.x.get().second)) { ++added_; new_ = attr(q.x.get()); const int c = calls_; q.x.get().second.invoke(); due(calls_ == c + 1, "what is scheduled is the function given, with its arguments"); ids(F_, "a stopped scheduler accepts no task"); wake(F_, "a stopped scheduler accepts no task"); if (prop_ == 9) { ids(match_ != 1, "a second task with a pending id is refused"); ids(!(pre_.on & pre_.id & new_.id) | pre_.hash != new_.hash, "at most one task with an id is pending"); } }
        wake(F_ | q.empty(), "a stopped scheduler has no pending task");
        if (sl_.asleep & !sl_.owe)
        {
            bool ok = sl_.timed ? !post.on | sl_.until <= post.key : !post.on; if (q.x.on) ok &= sl_.timed & sl_.until <= gv::ns(q.x.get().first);
            if (!ok) debt_ = true;
        }
    }
    subs_ = 0; tclear();
}
void gv_on_sleep(void* cv, void* m, bool timed)
{
    if (mode_ == DEAD) return;
    if (discover_ == 3) { cv_ = cv; return; }
    wake(mode_ == SCHED, "only the scheduler thread blocks"); if (mode_ != SCHED) gv_unsupported("blocking operations of the scheduler");
    wake(cv == cv_ & m == T_, "the scheduler thread sleeps where it is notified"); if (!known_) { map_->s.stale = false; gv::MapItems<st_t>::sync(*map_); }
    wake(discipline_ == 0 ? F_ & !saw_false_ : checked_ & !saw_false_, "the scheduler thread never sleeps through stop");
    timed_ = timed; until_ = gv::deadline;
    if (timed) { if (map_->w.on) { wake(gv::deadline <= gv::ns(map_->w.get().first), "the scheduler thread sleeps no longer than until the first due time"); due(gv::deadline <= gv::ns(map_->w.get().first), "the scheduler thread sleeps no longer than until the first due time"); } }
    else { wake(map_->empty(), "the scheduler thread only sleeps without a deadline when no task is pending"); due(map_->empty(), "the scheduler thread only sleeps without a deadline when no task is pending"); }
}
void gv_on_wake(void*, void*) { if (discover_) { *(bool*)flag_ = false; return; } if (mode_ == SCHED) { slept_ = timed_; deadline_ = until_; timed_ = false; until_ = 0; } }
void gv_on_notify(void* cv, bool all)
{
    if (mode_ == DEAD || discover_ || cv != cv_) return;
    const bool in = gv::holds(T_); if (in) { if (!known_) { map_->s.stale = false; gv::MapItems<st_t>::sync(*map_); } sl_.owe = true; }
    debt_ = false; if (mode_ == STOP && fstop_ && (dsec_ || in)) allwoken_ = true;
}
uint64_t gv_on_load(const volatile void* a, uint64_t raw, bool boolean)
{
    if (mode_ == DEAD || discover_ || (L_ && gv::holds(L_))) return raw;
    if (a != flag_) { gv_unsupported("another atomic"); return raw; }
    const bool in = gv::holds(T_); bool v;
    if (in && !known_) { map_->s.stale = false; gv::MapItems<st_t>::sync(*map_); }
    if (saw_false_) v = false; else if (in && discipline_ == 0) v = F_; else v = gv::any<bool>("running now");
    if (v) checked_ = in; else if (mode_ == SCHED) saw_false_ = true; else ++refused_;
    return v;
}
void gv_on_store(volatile void* a, uint64_t v)
{
    if (mode_ == DEAD) return;
    if (discover_) { if (discover_ == 2 && !flag_) flag_ = a; return; }
    if (a != flag_) { gv_unsupported("another atomic"); return; }
    wake(gv::holds(L_), "the lifecycle is only changed under its mutex"); if (gv::holds(T_) && !known_) { map_->s.stale = false; gv::MapItems<st_t>::sync(*map_); }
    if (v) { fstart_ = true; wake(pstart_ & !R_, "only a stopped scheduler is started"); } else if (R_) { fstop_ = true; if (gv::holds(T_)) F_ = false; wake(discipline_ == 1 | gv::holds(T_), "stop changes the running flag where the scheduler thread looks at it"); }
}
void gv_on_thread(std::thread::_State* b)
{
    if (discover_ == 2) { discover_ = 3; const gv::Held h = gv::held; gv::held = {}; b->_M_run(); gv::held = h; discover_ = 2; *(bool*)flag_ = true; return; }
    if (mode_ == SCHED) { const gv::Held h = gv::held; gv::held = {}; body_ = true; { gv::Running _(gv::BODY); b->_M_run(); } body_ = false; gv::ensures(gv::held.n == 0, "every mutex is released"); wake(saw_false_, "the scheduler thread only ends when the scheduler is stopped"); due(saw_false_, "the scheduler thread only ends when the scheduler is stopped"); gv::cover("the scheduler thread ends"); gv::held = h; mode_ = DEAD; return; }
    wake(mode_ == START & gv::holds(L_) & !spawned_, "only start creates the scheduler thread, under the lifecycle mutex"); wake(*(bool*)flag_, "a new scheduler thread finds the scheduler running"); spawned_ = true;
}
bool gv_keep_body() { return false; }
void gv_on_join(std::thread* t)
{
    if (mode_ == DEAD) return; if (discover_) { thr_ = t; return; } if (t != thr_) { gv_unsupported("another thread is joined"); return; }
    wake(allwoken_, "stop wakes the scheduler thread before it waits for it: running flag cleared, tasks dropped under their mutex, then notify"); wake(!gv::holds(T_), "stop waits for the scheduler thread without holding a mutex it needs"); joined_ = true;
}
void gv_on_latch(int64_t, int64_t, bool) {} void gv_on_vector(void*) {}
void gv_on_future(unsigned* s) { wake(mode_ == START | mode_ == DEAD | discover_, "only start waits for a future"); wake(!gv::holds(T_), "start waits for the scheduler thread without holding a mutex it needs"); *s = 1; }
size_t std::_Hash_bytes(const void*, size_t, size_t) { return h_; }
bool gv_pool_start(unsigned n) { if (mode_ == DEAD || discover_) return true; wake(gv::holds(L_) & !gv::holds(T_), "the lifecycle is only changed under its mutex"); if (R_) return false; pstart_ = true; return true; }
bool gv_pool_stop() { if (mode_ == DEAD || discover_) return true; wake(!gv::holds(T_), "stop waits for the workers without holding a mutex a task needs"); if (!(L_ && gv::holds(L_))) return false; wake(joined_, "the workers are stopped last, so that no task is handed to a stopped pool"); pstop_ = true; return R_; }
bool gv_pool_running() { return L_ && gv::holds(L_) ? R_ : gv::any<bool>("workers running"); } uint64_t gv_pool_threads() { return gv::count("workers"); }
void gv_pool_run(gv::Job* j)
{
    due(mode_ == SCHED, "only the scheduler thread runs tasks"); const int b = subs_; j->invoke();
    if (subs_ != b && !kept_ && prop_ == 8) kept_ = j; else delete j;
}
static sched& setup(int mode)
{
    gv::hw = 4; gv_drift(&now_); sched& s = *new (mem_) sched; gv::ensures(map_, "the tasks are kept in a std::multimap");
    discover_ = 2; gv::ensures(s.start(1), "a stopped scheduler can be started"); gv::ensures(flag_ && L_ && T_ && cv_, "the scheduler thread sleeps on a condition variable while no task is pending");
    gv::ensures(s.stop() && thr_, "a running scheduler can be stopped");
    discover_ = 0; mode_ = mode; *(bool*)flag_ = false; tclear(); gv::race_op = prop_ != 29 ? 0 : mode == SCHED || mode == START || mode == STOP ? gv::CONTROL : gv::USER; gv::race(mem_, sizeof(mem_)); return s;
}
static void done() { gv::op = 0; gv::ensures(gv::held.n == 0, "every mutex is released"); wake(!debt_, "the scheduler thread is notified when a task falls due before its deadline"); }
#define P(C, N, name, v, ...) GV_CONTRACT(C, name) { prop_ = N; discipline_ = v; __VA_ARGS__ }
#define P8(name, ...) P(C08, 8, name, 0, __VA_ARGS__)
#define P9(name, ...) P(C09, 9, name, 0, __VA_ARGS__)
#define P10(name, ...) P(C10, 10, name##__v0, 0, __VA_ARGS__) P(C10, 10, name##__v1, 1, __VA_ARGS__)
#define PALL(name, ...) P8(name, __VA_ARGS__) P9(name, __VA_ARGS__) P10(name, __VA_ARGS__)
PALL(thread, { sched& s = setup(SCHED); s.start(1); })
P10(exit, { sched& s = setup(SCHED); saw_false_ = true; s.start(1); })
P10(start, { sched& s = setup(START); const bool r = s.start((unsigned)gv_any_range("threads", 0, 0xffffffffll)); wake(r == (changes_ == 1) & r == !R_, "start returns true exactly when the scheduler was stopped"); if (r) gv::cover("starts"); else gv::cover("was running"); done(); })
P10(stop, { sched& s = setup(STOP); const bool r = s.stop(); wake(r == (changes_ == 1) & r == R_, "stop returns true exactly when the scheduler was running"); if (r) gv::cover("stops"); else gv::cover("was stopped"); done(); })
P10(destroy, { sched& s = setup(STOP); s.~sched(); done(); gv::cover("destroyed"); })
// operations that add a task: which is 0 without id, 1 with the id of a pending task, 2 with an id the witness does not have, 3 with an id no pending task has
struct Fun0 { int v; int operator()() const { ++calls_; return v; } };
struct Fun1 { int v; int operator()(int a) const { ++calls_; got_ = a; return v; } };
static void added(bool ok, bool id, bool periodic, int64_t interval, int which)
{
    ids(ok == (added_ == 1) & added_ <= 1, "the answer tells whether the task is pending now"); due(ok == (added_ == 1) & added_ <= 1, "the answer tells whether the task is pending now");
    if (which == 1) ids(!ok, "a second task with a pending id is refused"); if (which == 0 || which == 3) { ids(ok | refused_ > 0, "a task is refused only when its id is pending or the scheduler is stopped"); due(ok | refused_ > 0, "a task is refused only when its id is pending or the scheduler is stopped"); }
    if (ok) { ids(new_.id == id & (!id | new_.hash == h_), "the task is known by the id given"); due(new_.enabled, "a new task is enabled"); due(new_.periodic == periodic & (!periodic | new_.interval == interval), "the task has the interval given"); ids(new_.periodic == periodic & (!periodic | new_.interval == interval), "the task has the interval given"); gv::cover("added"); }
    done();
}
static bool due_after(int64_t delay) { return clock_ & new_.key - delay >= r0_ & new_.key - delay <= r1_; }
static int64_t delay() { return gv_any_range("delay", -(1ll << 59), 1ll << 59); } static int64_t interval() { return gv_any_range("interval", 1, 1ll << 58); } static int val(const char* n) { return (int)gv_any_range(n, -1000000, 1000000); }
static std::string id_() { return std::string("i"); }
static sched& setup_add(int which) { h_ = gv::count("id hash"); match_ = which; sched& s = setup(ADD); return s; }
#define RESULT(r, v) if (r) due(r->get() == v, "the future yields the task's result");
#define ADDS(PX, C, W, which) \
    PX(C##_at_args##W, sched& s = setup_add(which); const int64_t t = gv::instant("time"); const int v = val("value"); const int a = val("argument"); auto r = which == 0 ? s.at(gv::at_ns(t), Fun1{v}, int(a)) : s.at(id_(), gv::at_ns(t), Fun1{v}, int(a)); due(!r | new_.key == t, "the task is due at the time given"); due(!r | got_ == a, "the function gets its arguments"); RESULT(r, v) added(r.has_value(), which != 0, false, 0, which);) \
    PX(C##_in_args##W, sched& s = setup_add(which); const int64_t d = delay(); const int v = val("value"); const int a = val("argument"); auto r = which == 0 ? s.in(ns(d), Fun1{v}, int(a)) : s.in(id_(), ns(d), Fun1{v}, int(a)); if (r) due(due_after(d), "the task is due after the delay given"); due(!r | got_ == a, "the function gets its arguments"); RESULT(r, v) added(r.has_value(), which != 0, false, 0, which);) \
    PX(C##_every_args##W, sched& s = setup_add(which); const int64_t i = interval(); const int a = val("argument"); const bool r = which == 0 ? s.every(ns(i), Fun1{1}, int(a)) : s.every(id_(), ns(i), Fun1{1}, int(a)); if (r) due(due_after(0), "the task is due at once"); due(!r | got_ == a, "the function gets its arguments"); added(r, which != 0, true, i, which);)
#define ADDS0(PX, C, W, which) \
    PX(C##_at##W, sched& s = setup_add(which); const int64_t t = gv::instant("time"); const int v = val("value"); auto r = s.at(gv::at_ns(t), Fun0{v}); due(!r | new_.key == t, "the task is due at the time given"); RESULT(r, v) added(r.has_value(), false, false, 0, which);) \
    PX(C##_in##W, sched& s = setup_add(which); const int64_t d = delay(); const int v = val("value"); auto r = s.in(ns(d), Fun0{v}); if (r) due(due_after(d), "the task is due after the delay given"); RESULT(r, v) added(r.has_value(), false, false, 0, which);) \
    PX(C##_every##W, sched& s = setup_add(which); const int64_t i = interval(); const bool r = s.every(ns(i), Fun0{1}); if (r) due(due_after(0), "the task is due at once"); added(r, false, true, i, which);)
#define ADDS1(PX, C, W, which) \
    PX(C##_every_delay##W, sched& s = setup_add(which); const int64_t i = interval(); const int64_t d = delay(); const int a = val("argument"); const bool r = s.every(id_(), ns(i), ns(d), Fun1{1}, int(a)); if (r) due(due_after(d), "the task is due after the delay given"); due(!r | got_ == a, "the function gets its arguments"); added(r, true, true, i, which);)
#define PALL1(name, ...) P8(name, __VA_ARGS__) P9(name, __VA_ARGS__) P10(name, __VA_ARGS__)
#define P89(name, ...) P8(name, __VA_ARGS__) P9(name, __VA_ARGS__)
ADDS(PALL1, add, _anonymous, 0) ADDS0(PALL1, add, _anonymous, 0) ADDS(P9, add, _dup, 1) ADDS1(P9, add, _dup, 1) ADDS(P89, add, _other, 2) ADDS1(P89, add, _other, 2) ADDS(PALL1, add, _fresh, 3) ADDS1(PALL1, add, _fresh, 3)
// operations on the task with an id: which is 1 the witness has it, 2 the witness does not, 3 no pending task has it
static sched& setup_id(int which, int mode = RETIME) { h_ = gv::count("id hash"); match_ = which; sched& s = setup(mode); return s; }
static bool kept() { return new_.on & new_.key == was_.key & new_.enabled == was_.enabled & new_.periodic == was_.periodic & new_.interval == was_.interval & new_.id == was_.id & new_.hash == was_.hash; }
#define HAS ids(changes_ == 1, "the task is looked at once"); 
P9(is_scheduled, { sched& s = setup_id(1); const bool r = s.is_scheduled(id_()); HAS ids(r, "a pending task is found by its id"); ids(kept(), "a query changes nothing"); done(); gv::cover("found"); })
P9(is_scheduled_none, { sched& s = setup_id(3); ids(!s.is_scheduled(id_()), "an id no pending task has is not found"); done(); gv::cover("none"); })
P9(is_scheduled_other, { sched& s = setup_id(2); s.is_scheduled(id_()); done(); gv::cover("other"); })
P9(is_enabled, { sched& s = setup_id(1); const bool r = s.is_enabled(id_()); HAS ids(r == was_.enabled, "is_enabled answers for the task with that id"); ids(kept(), "a query changes nothing"); done(); gv::cover("found"); })
P9(is_enabled_none, { sched& s = setup_id(3); ids(!s.is_enabled(id_()), "an id no pending task has is not enabled"); done(); gv::cover("none"); })
P9(is_enabled_other, { sched& s = setup_id(2); s.is_enabled(id_()); done(); gv::cover("other"); })
P9(get_interval, { sched& s = setup_id(1); auto r = s.get_interval(id_()); HAS ids(r.has_value() == was_.periodic && (!r || r->count() == was_.interval), "get_interval answers for the periodic task with that id"); ids(kept(), "a query changes nothing"); done(); gv::cover("found"); })
P9(get_interval_none, { sched& s = setup_id(3); ids(!s.get_interval(id_()).has_value(), "an id no pending task has has no interval"); done(); gv::cover("none"); })
P9(get_interval_other, { sched& s = setup_id(2); s.get_interval(id_()); done(); gv::cover("other"); })
PALL1(set_enabled, { sched& s = setup_id(1); const bool e = gv::any<bool>("enable"); const bool r = s.set_enabled(id_(), e); HAS ids(r, "set_enabled succeeds for a pending task"); const bool old = new_.enabled; new_.enabled = was_.enabled; ids(old == e & kept(), "set_enabled changes exactly the enabled flag"); due(old == e & kept(), "set_enabled changes exactly the enabled flag"); done(); gv::cover("found"); })
P9(set_enabled_none, { sched& s = setup_id(3); ids(!s.set_enabled(id_(), gv::any<bool>("enable")), "set_enabled fails for an id no pending task has"); done(); gv::cover("none"); })
P89(set_enabled_other, { sched& s = setup_id(2); s.set_enabled(id_(), gv::any<bool>("enable")); done(); gv::cover("other"); })
PALL1(remove, { sched& s = setup_id(1); const bool r = s.remove_task(id_()); HAS ids(r & !new_.on, "remove_task removes the task with that id"); due(!new_.on, "remove_task removes the task with that id"); done(); gv::cover("found"); })
P9(remove_none, { sched& s = setup_id(3); ids(!s.remove_task(id_()), "remove_task fails for an id no pending task has"); done(); gv::cover("none"); })
P89(remove_other, { sched& s = setup_id(2); s.remove_task(id_()); done(); gv::cover("other"); })
PALL1(update_interval, { sched& s = setup_id(1); const int64_t i = interval(); const bool r = s.update_interval(id_(), ns(i)); HAS ids(r == was_.periodic, "update_interval succeeds for a periodic task");
    if (!r) { ids(kept(), "update_interval leaves a one-shot task alone"); due(kept(), "update_interval leaves a one-shot task alone"); }
    else { ids(new_.on & new_.periodic & new_.interval == i & new_.enabled == was_.enabled & new_.id & new_.hash == was_.hash, "update_interval changes exactly the interval and the due time"); const int64_t base = was_.key - was_.interval; due(new_.on & new_.interval == i & new_.enabled == was_.enabled, "update_interval changes exactly the interval and the due time");
        due(gv_multiple(new_.key - base, i) && new_.key >= base, "a re-timed task is due on its new grid, counted from its last due time"); due(clock_ & new_.key >= r0_, "a re-timed task is not due in the past"); due(new_.key - i < r1_ | new_.key == base, "a re-timed task is due at the first point of its new grid that is not in the past"); gv::cover("re-timed"); }
    done(); })
P9(update_interval_none, { sched& s = setup_id(3); ids(!s.update_interval(id_(), ns(interval())), "update_interval fails for an id no pending task has"); done(); gv::cover("none"); })
P89(update_interval_other, { sched& s = setup_id(2); s.update_interval(id_(), ns(interval())); done(); gv::cover("other"); })
PALL1(tasks_size, { sched& s = setup_id(0, RETIME); gv::map_size = ~0ull; const size_t n = s.tasks_size(); if (gv::map_size == ~0ull) gv_unsupported("tasks counted another way"); ids(n == gv::map_size, "tasks_size counts the pending tasks"); done(); gv::cover("size"); })
// C29: the accesses of each operation, with the mutexes held, are recorded; every pair is then examined
#define P29(name, ...) P(C29, 29, sched_##name, 0, __VA_ARGS__; done();)
P29(thread, sched& s = setup(SCHED); s.start(1))
P29(start, sched& s = setup(START); s.start(2))
P29(stop, sched& s = setup(STOP); s.stop())
P29(destroy, sched& s = setup(STOP); if (gv::op) gv::op = gv::DESTROY; s.~sched())
P29(at, sched& s = setup_add(0); s.at(gv::at_ns(gv::instant("time")), Fun0{1}))
P29(at_id, sched& s = setup_add(2); s.at(id_(), gv::at_ns(gv::instant("time")), Fun1{1}, 2))
P29(at_id_fresh, sched& s = setup_add(3); s.at(id_(), gv::at_ns(gv::instant("time")), Fun1{1}, 2))
P29(in, sched& s = setup_add(0); s.in(ns(delay()), Fun0{1}))
P29(in_id, sched& s = setup_add(2); s.in(id_(), ns(delay()), Fun1{1}, 2))
P29(every, sched& s = setup_add(0); s.every(ns(interval()), Fun0{1}))
P29(every_id, sched& s = setup_add(2); s.every(id_(), ns(interval()), Fun1{1}, 2))
P29(every_delay, sched& s = setup_add(2); s.every(id_(), ns(interval()), ns(delay()), Fun1{1}, 2))
#define P29ID(name, ...) P29(name, sched& s = setup_id(1); s.__VA_ARGS__) P29(name##_other, sched& s = setup_id(2); s.__VA_ARGS__)
P29ID(is_scheduled, is_scheduled(id_()))
P29ID(is_enabled, is_enabled(id_()))
P29ID(get_interval, get_interval(id_()))
P29ID(set_enabled, set_enabled(id_(), gv::any<bool>("enable")))
P29ID(remove, remove_task(id_()))
P29ID(update_interval, update_interval(id_(), ns(interval())))
P29(tasks_size, sched& s = setup_id(0, RETIME); s.tasks_size())
#endif

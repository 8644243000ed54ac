#include <gv/gv.hpp>
#ifdef GV_NATIVE
#include <gv/sched.hpp>
#include <high_precision_timer.cpp>
#include <rate_limiter.cpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/stopwatch.hpp>
#include <string>
#include <vector>
using timer = tc::sdk::high_precision_timer; using ns = std::chrono::nanoseconds;
static tc::sdk::clock::time_point at_ns(int64_t t) { return tc::sdk::clock::time_point(ns(t)); }
static void until(int64_t t) { if (t > gv_now_ns()) std::this_thread::sleep_until(at_ns(t)); }
// callbacks of given durations; time passes only when all threads sleep, so the worker is late only because of the callbacks
GV_CONTRACT(C11, sched_grid)
{
    const int64_t iv = 10 * gv_any_range("interval", 1, 6), len = 10 * gv_any_range("length", 0, 40) + 5; const int rounds = gv_any_range("rounds", 1, 2), nd = gv_any_range("durations", 1, 5); int64_t du[5]; for (auto& x : du) x = 10 * gv_any_range("duration", 0, 12);
    const bool spurious = gv::any<bool>("spurious"), restart = gv::any<bool>("restart");
    gv::schedule("stop terminates", [&] {
        gv_time_only_idle(true); gv_no_spurious(!spurious);
        std::vector<int64_t> begin, end; timer t; gv::ensures(!t.start(ns(iv)) && gv_live_threads() == 0, "start without a callback returns false and starts nothing");
        t.set_callback([&](int x, const std::string& s) { gv::ensures(x == 7 && s == "arg", "the callback gets its arguments"); begin.push_back(gv_now_ns()); if (const int64_t d = du[(begin.size() - 1) % nd]) std::this_thread::sleep_for(ns(d)); end.push_back(gv_now_ns()); }, 7, std::string("arg"));
        for (int r = 0; r < rounds; ++r)
        {
            gv::ensures(t.start(ns(iv)) && gv_live_threads() == 1, "start with a callback starts one worker"); begin.clear(); end.clear(); const int64_t t0 = gv_now_ns(); gv::ensures(t.invoked_callback_count() == 0 && t.missed_callback_count() == 0, "start resets both counters");
            until(t0 + len);
            std::vector<int64_t> want; uint64_t missed = 0, done = 0; int64_t next = t0 + iv, now = t0 + len;
            for (int k = 0; next <= now; ++k)
            {
                want.push_back(next); const int64_t e = next + du[k % nd]; if (e > now) break;
                ++done; next += iv; while (next < e) { next += iv; ++missed; }
                // a due time that is the very instant of completion is served at once
            }
            gv_settle();
            gv::ensures(t.invoked_callback_count() == done, "invoked_callback_count counts the completed invocations"); gv::ensures(t.missed_callback_count() == missed, "every grid point that passed during an invocation is counted once as missed");
            gv::ensures(begin == want, "the callback is invoked at the grid points start + k*interval that had not passed, and only there");
            if (!restart) { t.stop(); gv::ensures(gv_live_threads() == 0 && begin.size() == end.size(), "stop joins the worker after a running callback"); const size_t b = begin.size(); std::this_thread::sleep_for(ns(3 * iv)); gv::ensures(begin.size() == b, "the callback is not invoked after stop"); gv::ensures(t.invoked_callback_count() == b, "invoked_callback_count counts the completed invocations"); }
        }
    });
}
GV_CONTRACT(C11, sched_late)
{
    const int64_t iv = gv_any_range("interval", 1, 50), len = gv_any_range("length", 0, 300), du = gv_any_range("duration", 0, 60);
    gv::schedule("stop terminates", [&] {
        std::vector<int64_t> begin; timer t; t.set_callback([&] { begin.push_back(gv_now_ns()); if (du) std::this_thread::sleep_for(ns(du)); });
        const int64_t t0 = gv_now_ns(); t.start(ns(iv)); std::this_thread::sleep_for(ns(len)); t.stop();
        for (size_t k = 0; k < begin.size(); ++k) gv::ensures(begin[k] >= t0 + (int64_t)(k + 1) * iv, "the k-th invocation never happens before start + k*interval");
        gv::ensures(t.invoked_callback_count() == begin.size(), "invoked_callback_count counts the completed invocations"); gv::ensures(t.missed_callback_count() <= (uint64_t)(gv_now_ns() - t0) / iv, "missed_callback_count counts grid points that passed");
    });
}
GV_CONTRACT(C11, sched_stop)
{
    const int rounds = gv_any_range("rounds", 1, 3), where = gv_any_range("where", 0, 2); const int64_t pause = gv_any_range("pause", 0, 30), iv = gv_any_range("interval", 1, 20);
    gv::schedule("stop terminates", [&] {
        gv_time_only_idle(where != 2); int runs = 0; timer t; t.set_callback([&] { ++runs; });
        for (int r = 0; r < rounds; ++r)
        {
            t.start(where == 1 ? ns(1000000) : ns(iv)); if (pause) std::this_thread::sleep_for(ns(pause)); const int64_t b = gv_now_ns();
            t.stop(); if (where != 2) gv::ensures(gv_now_ns() == b, "stop does not wait for the next due time"); const int n = runs; gv_yield(); std::this_thread::sleep_for(ns(100)); gv::ensures(runs == n && gv_live_threads() == 0, "the callback is not invoked after stop"); t.stop();
        }
    });
}
using obs = tc::sdk::observable<int>;
GV_CONTRACT(C12, sched_history)
{
    const int steps = gv_any_range("steps", 1, 8), v0 = gv_any_range("initial", 0, 2);
    std::vector<std::string> calls; tc::sdk::observable<std::string> o(std::string(20, 'a' + v0), [&](std::string s) { calls.push_back(s); });
    gv::ensures(calls.empty(), "construction does not invoke the callback"); std::string v(20, 'a' + v0); bool en = true; gv::ensures(o.callback_enabled(), "a new observable has its callback enabled");
    for (int k = 0; k < steps; ++k)
    {
        calls.clear(); const int op = gv_any_range("op", 0, 3);
        if (op <= 1) { std::string w(20, 'a' + gv_any_range("value", 0, 2)); const bool change = w != v; std::string c = w; if (op) o = c; else o = std::string(w); v = w; gv::ensures(calls.size() == (change && en) && (calls.empty() || calls[0] == w), "the callback is invoked once, with the new value, exactly when it differs and the callback is enabled"); }
        else { en = op == 2; o.callback_enabled(en); gv::ensures(calls.empty(), "toggling does not invoke the callback"); }
        gv::ensures(o.value() == v && (std::string)o == v && o.callback_enabled() == en, "value returns the last value assigned"); gv::ensures(calls.size() <= 1, "reading does not invoke the callback");
    }
}
GV_CONTRACT(C12, sched_concurrent)
{
    const int n = gv_any_range("threads", 1, 3), per = gv_any_range("assignments", 1, 3); int v[9]; for (auto& x : v) x = gv_any_range("value", 0, 2);
    gv::schedule("assignments return", [&] {
        std::vector<int> calls; obs o(-1, [&](int x) { calls.push_back(x); gv_yield(); }); std::vector<std::thread> th;
        for (int t = 0; t < n; ++t) th.emplace_back([&, t] { for (int k = 0; k < per; ++k) o = v[t * 3 + k]; });
        for (auto& t : th) t.join();
        int prev = -1; bool alt = true; for (int c : calls) { alt &= c != prev; prev = c; }
        gv::ensures(alt && prev == o.value(), "each callback reports a change, and the last one the current value");
        // every change is reported: the calls form a path that some interleaving of the assignments takes
        std::vector<int> pos(n, 0); std::function<bool(int, size_t)> ok = [&](int cur, size_t at) { bool rest = true; for (int t = 0; t < n; ++t) if (pos[t] < per) { rest = false; const int x = v[t * 3 + pos[t]++]; const bool ch = x != cur; const bool g = ch ? at < calls.size() && calls[at] == x && ok(x, at + 1) : ok(cur, at); --pos[t]; if (g) return true; } return rest && at == calls.size(); };
        gv::ensures(ok(-1, 0), "the callback is invoked exactly once for every change of value");
    });
}
GV_CONTRACT(C27, sched_stopwatch)
{
    const int steps = gv_any_range("steps", 1, 6);
    gv::schedule("reading returns", [&] {
        gv_time_only_idle(true); int64_t t0 = gv_now_ns(); tc::sdk::stopwatch w;
        for (int k = 0; k < steps; ++k)
        {
            std::this_thread::sleep_for(ns(gv_any_range("sleep", 0, 5000000000ll))); const int64_t e = gv_now_ns() - t0;
            gv::ensures(w.elapsed().count() == e && w.start_time().time_since_epoch().count() == t0, "elapsed is the time since the last start");
            gv::ensures(w.elapsed<std::chrono::microseconds>().count() == e / 1000 && w.elapsed<std::chrono::milliseconds>().count() == e / 1000000 && w.elapsed<std::chrono::seconds>().count() == e / 1000000000, "elapsed is truncated to the unit");
            if (gv::any<bool>("reset")) { w.reset(); t0 = gv_now_ns(); }
        }
    });
}
GV_CONTRACT(C27, sched_rate)
{
    const int64_t rate = gv_any_range("rate", 1, 2000); const int steps = gv_any_range("steps", 1, 8); const bool early = gv::any<bool>("delays");
    gv::schedule("sync returns", [&] {
        gv_time_only_idle(!early); const int64_t t0 = gv_now_ns(); tc::sdk::rate_limiter r(rate);
        for (int k = 1; k <= steps; ++k)
        {
            int64_t d = 0; if (gv::any<bool>("late")) std::this_thread::sleep_for(ns(d = gv_any_range("delay", 0, 3000000000ll)));
            const int64_t b = gv_now_ns(), due = t0 + (int64_t)(k * 1e9 / rate); r.sync();
            gv::ensures(gv_now_ns() >= due - 1000, "the n-th sync does not return before construction + n/rate"); // 1 us for the rounding of the double clock representation
            if (!early) gv::ensures(gv_now_ns() <= std::max(b, due) + 1000, "lateness does not shift later due times");
        }
    });
}
#else
// Monitor proofs. Timer: running flag under the worker mutex, everything else owned by the worker while there is one and by the controlling thread otherwise.
#include "stubs/atomics.hpp"
#include "stubs/threads.hpp"
#define GV_READY
#include "stubs/future.hpp"
#include <high_precision_timer.cpp>
#include <rate_limiter.cpp>
#include <teiacare/sdk/observable.hpp>
#include <teiacare/sdk/stopwatch.hpp>
using timer = tc::sdk::high_precision_timer; using ns = std::chrono::nanoseconds;
extern "C" bool gv_multiple(int64_t a, int64_t b); // a is a multiple of b
extern "C" bool gv_split(bool);
enum { OTHER, WORK, START, STOP, READ, OBS, DEAD };
static int mode_; static bool discover_, body_, waits_, ready_;
static int64_t instant(const char* w) { return gv_any_range(w, -(1ll << 60), 1ll << 60); }
static tc::sdk::clock::time_point at_ns(int64_t t) { return tc::sdk::clock::time_point(ns(t)); }
// clock: the first and the last reading since the last event, and a bound from sleeping
static int64_t n0_, now_, r0_, r1_, asleep_; static bool read_, clock_;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    const int64_t n = instant("now"); if (read_) gv_assume(n >= now_); else { read_ = true; n0_ = n; } if (clock_) gv_assume(n >= r1_ + asleep_); else { clock_ = true; r0_ = n; } now_ = n; if (mode_ != WORK) r1_ = n; else { clock_ = false; r0_ = 0; } asleep_ = 0; return at_ns(n);
}
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { asleep_ += t->tv_sec * 1000000000 + t->tv_nsec; return 0; }
// timer
static timer* t_; static bool* flag_; static uint64_t *inv_, *mis_; static int64_t iv_;
static bool stopped_, pend_, alive_, woken_, cleared_; static int64_t next_s_; static uint64_t inv_s_, mis_s_; static int calls_, spawned_; static uint64_t got_; static bool loaded_inv_, loaded_mis_;
static int64_t next() { return t_->_next_task_timepoint.time_since_epoch().count(); }
static void settle()
{
    if (!pend_) return; pend_ = false;
    const int64_t d = next() - next_s_; const uint64_t k = *mis_ - mis_s_ + 1;
    gv::ensures(*inv_ == inv_s_ + 1, "invoked_callback_count counts the completed invocations"); gv::ensures(d > 0 && gv_multiple(d, iv_), "due times stay on the grid start + k*interval");
    gv::ensures(k >= 1 & (int64_t)k * iv_ == d, "every grid point that is skipped is counted once as missed"); gv::ensures(read_ && next() >= n0_, "grid points that had passed when an invocation completed are skipped");
    gv::ensures(next() - iv_ < now_ | d == iv_, "only grid points that had passed are skipped"); gv::cover("invoked");
    next_s_ = 0; inv_s_ = mis_s_ = 0;
}
struct Ghost { void operator()() const { settle(); gv::ensures(mode_ == WORK && body_, "only the worker invokes the callback"); gv::ensures(read_ && now_ >= next(), "an invocation never happens before its due time"); gv::ensures(*flag_ & !stopped_, "a stopped timer invokes no callback"); pend_ = true; next_s_ = next(); inv_s_ = *inv_; mis_s_ = *mis_; read_ = false; now_ = n0_ = 0; } };
static void havoc() { t_->_next_task_timepoint = at_ns(instant("due")); *inv_ = gv::count("invoked"); *mis_ = gv::count("missed"); }
static void meanwhile() { if (!stopped_ && (ready_ | !waits_) && gv_split(gv::any<bool>("stopped meanwhile"))) stopped_ = true; if (stopped_) *flag_ = false; }
// observable
struct Val { uint64_t v; Val(uint64_t x) : v(x) {} Val(const Val& o) : v(o.v) {} Val& operator=(const Val& o) { v = o.v; return *this; } bool operator==(const Val& o) const { return v == o.v; } };
using obs = tc::sdk::observable<Val>; static obs* o_; static bool* en_; static Val pre_{0}, post_{0}; static bool enabled_, toggled_; static int changes_, wanted_;
void gv_on_acquire(void* m)
{
    if (discover_) return;
    if (mode_ == OBS) { o_->_value = Val(gv::count("value")); *en_ = gv::any<bool>("enabled"); pre_ = o_->_value; enabled_ = *en_; return; }
    if (m != t_->_worker_mutex.native_handle()) { gv_unsupported("another mutex"); return; }
    if (mode_ == WORK && body_) { meanwhile(); if (!pend_) { havoc(); read_ = false; n0_ = now_ = 0; } }
    if ((mode_ == START || mode_ == STOP) && alive_) havoc();
}
void gv_on_release(void*)
{
    if (discover_) return;
    if (mode_ == OBS) { post_ = o_->_value; const bool c = post_.v != pre_.v; changes_ += c; wanted_ += c & enabled_; toggled_ |= *en_ != enabled_; enabled_ = *en_; return; }
    if (mode_ == WORK && body_) { settle(); gv::ensures(!stopped_ | !*flag_, "the worker does not undo a stop"); }
    if ((mode_ == START || mode_ == STOP) && alive_ && !*flag_) cleared_ = true;
}
void gv_on_sleep(void* cv, void*, bool timed)
{
    if (discover_) return;
    gv::ensures(mode_ == WORK && body_, "only the worker sleeps"); settle(); gv::ensures(cv == &t_->_worker_cv, "the worker sleeps where it is notified");
    gv::ensures(*flag_ & !stopped_, "the worker never sleeps through stop"); gv::ensures(timed && gv::deadline <= next(), "the worker sleeps no longer than until the next due time");
}
void gv_on_wake(void*, void*) { gv::deadline = 0; }
void gv_on_notify(void* cv, bool) { if (mode_ != OBS && cv == &t_->_worker_cv && (cleared_ || (gv::holds(t_->_worker_mutex.native_handle()) && !*flag_))) woken_ = true; }
uint64_t gv_on_load(const volatile void* a, uint64_t raw, bool)
{
    if (discover_) return raw;
    if (mode_ == OBS) return gv::held.n ? raw : gv::any<bool>("enabled now");
    if (a == inv_ || a == mis_) { if (mode_ != READ) return raw; got_ = gv::count("counter"); (a == inv_ ? loaded_inv_ : loaded_mis_) = true; return got_; }
    if (a == (void*)flag_) { if (mode_ == WORK && body_ && !gv::held.n) meanwhile(); return *flag_; }
    gv_unsupported("another atomic"); return raw;
}
void gv_on_store(volatile void* a, uint64_t) { if (!discover_ && mode_ == START && (a == inv_ || a == mis_)) gv::ensures(!alive_, "the counters are reset after the previous worker has ended"); if (mode_ == READ) gv::ensures(false, "a query changes nothing"); }
static void checks_at_spawn()
{
    gv::ensures(!alive_, "the previous worker is stopped before a new one is started"); gv::ensures(gv::held.n == 0 | waits_ == false, "no mutex is held while start waits for the worker");
    gv::ensures(*inv_ == 0 & *mis_ == 0, "start resets both counters"); gv::ensures(t_->_interval.count() == iv_, "start sets the interval"); gv::ensures(clock_ && next() - iv_ >= r0_ & next() - iv_ <= r1_, "the first due time is one interval after start");
    gv::ensures(*flag_ | waits_, "when start returns the worker runs");
}
void gv_on_thread(std::thread::_State* b)
{
    ++spawned_; if (discover_) return;
    if (mode_ == START) { checks_at_spawn(); gv::solo = false; return; }
    gv::ensures(mode_ == WORK, "only start creates a worker");
    const gv::Held h = gv::held; gv::held = {}; body_ = true; read_ = false; n0_ = now_ = 0; clock_ = false; r0_ = r1_ = 0; { gv::Running _(gv::BODY); b->_M_run(); } gv::solo = false; settle(); body_ = false; gv::ensures(gv::held.n == 0, "every mutex is released"); gv::ensures(stopped_, "the worker only ends when the timer is stopped"); gv::cover("the worker ends"); gv::held = h; mode_ = DEAD;
}
bool gv_keep_body() { return false; }
void gv_on_vector(void*) {}
void gv_on_join(std::thread* t) { if (discover_ || mode_ == DEAD) return; gv::ensures(t == &t_->_worker_thread, "the worker is joined"); gv::ensures(gv::held.n == 0, "stop waits for the worker without holding a mutex it needs"); gv::ensures(woken_, "stop wakes the worker before it waits for it: running flag cleared under the mutex, then notify"); alive_ = false; gv::solo = true; }
void gv_on_latch(int64_t, int64_t arrive, bool wait) { if (body_) ready_ |= arrive > 0; else if (wait) waits_ = true; }
void gv_on_future(unsigned* s) { if (discover_) waits_ = true; *s = 1; }
void gv_on_ready() { if (body_) ready_ = true; }
static bool race_; // C29
alignas(timer) static unsigned char mem_[sizeof(timer)];
static timer& setup(int mode, bool task)
{
    t_ = new (mem_) timer; flag_ = (bool*)&t_->_is_running; inv_ = (uint64_t*)&t_->_invoked_callback_count; mis_ = (uint64_t*)&t_->_missed_callback_count; discover_ = true;
    gv::ensures(!t_->start(ns(1)) && !spawned_ && !t_->_worker_thread.joinable(), "start without a callback returns false and starts nothing"); gv::ensures(*inv_ == 0 & *mis_ == 0, "a new timer has counted nothing");
    t_->set_callback(Ghost{}); gv::ensures(t_->start(ns(1)) && spawned_ == 1, "start with a callback starts one worker"); t_->stop(); gv::ensures(!t_->_worker_thread.joinable(), "stop joins the worker");
    if (!task) t_->_task.reset(); discover_ = false; spawned_ = 0; mode_ = mode; read_ = clock_ = false; n0_ = now_ = r0_ = r1_ = 0; ready_ = woken_ = cleared_ = false; iv_ = gv_any_range("interval", 1, 1ll << 58);
    if (mode == START || mode == STOP || mode == READ) { alive_ = gv_split(gv::any<bool>("a worker exists")); *flag_ = alive_ ? true : gv::any<bool>("flag"); t_->_interval = ns(gv_any_range("old interval", 1, 1ll << 58)); havoc(); if (alive_) t_->_worker_thread._M_id = gv::running_id(); }
    gv::solo = (mode == START || mode == STOP || mode == WORK) && !alive_; gv::race_op = !race_ ? 0 : mode == READ ? gv::USER : gv::CONTROL; gv::race(mem_, sizeof(mem_));
    return *t_;
}
static void done() { gv::op = 0; gv::ensures(gv::held.n == 0, "every mutex is released"); }
GV_CONTRACT(C11, worker) { timer& t = setup(WORK, true); t.start(ns(iv_)); gv::ensures(spawned_ == 1, "start with a callback starts one worker"); }
GV_CONTRACT(C11, start) { timer& t = setup(START, true); const bool r = t.start(ns(iv_)); gv::ensures(r & spawned_ == 1 & t._worker_thread.joinable(), "start with a callback starts one worker"); gv::ensures(calls_ == 0, "only the worker invokes the callback"); done(); gv::cover("starts"); }
GV_CONTRACT(C11, start_none) { timer& t = setup(START, false); const bool a = alive_; const bool r = t.start(ns(iv_)); gv::ensures(!r & spawned_ == 0 & t._worker_thread.joinable() == a, "start without a callback returns false and starts nothing"); done(); gv::cover("refused"); }
GV_CONTRACT(C11, stop) { timer& t = setup(STOP, true); t.stop(); gv::ensures(!t._worker_thread.joinable() & !alive_, "when stop returns no worker is left"); done(); gv::cover("stops"); }
GV_CONTRACT(C11, destroy) { timer& t = setup(STOP, gv_split(gv::any<bool>("callback set"))); t.~timer(); gv::ensures(!alive_, "when the timer is destroyed no worker is left"); done(); gv::cover("destroyed"); }
GV_CONTRACT(C11, counters) { timer& t = setup(READ, true); const uint64_t a = t.invoked_callback_count(); gv::ensures(loaded_inv_ & !loaded_mis_ & a == got_, "invoked_callback_count is the counter of invocations"); const uint64_t b = t.missed_callback_count(); gv::ensures(loaded_mis_ & b == got_, "missed_callback_count is the counter of missed grid points"); done(); }
static int seen_a_; static uint64_t seen_b_;
GV_CONTRACT(C11, set_callback) { timer& t = setup(OTHER, true); const int a = (int)gv_any_range("a", -1000000, 1000000); const uint64_t b = gv::count("b"); Val v(b); t.set_callback([](int x, Val y) { ++calls_; seen_a_ = x; seen_b_ = y.v; }, a, v); v.v = b + 1; t._task->invoke(); gv::ensures(calls_ == 1 & seen_a_ == a & seen_b_ == b, "the callback is the function given, with copies of its arguments"); }
// observable
alignas(obs) static unsigned char omem_[sizeof(obs)];
static obs& setup_obs() { o_ = new (omem_) obs(Val(3), [](Val v) { ++calls_; got_ = v.v; }); en_ = (bool*)&o_->_is_callback_enabled; mode_ = OBS; gv::race_op = race_ ? gv::USER : 0; gv::race(omem_, sizeof(omem_)); return *o_; }
static void assigned(uint64_t v) { gv::ensures(post_.v == v, "value returns the last value assigned"); gv::ensures(calls_ == wanted_ & (calls_ == 0 | got_ == v), "the callback is invoked once, with the new value, exactly when it differs and the callback is enabled"); gv::ensures(!toggled_, "assigning does not change callback_enabled"); done(); if (calls_) gv::cover("calls"); else if (enabled_) gv::cover("same value"); else gv::cover("disabled"); }
GV_CONTRACT(C12, assign_lvalue) { obs& o = setup_obs(); const uint64_t v = gv::count("new value"); const Val c(v); gv::ensures(&(o = c) == &o && c.v == v, "assignment returns the observable"); assigned(v); }
GV_CONTRACT(C12, assign_rvalue) { obs& o = setup_obs(); const uint64_t v = gv::count("new value"); gv::ensures(&(o = Val(v)) == &o, "assignment returns the observable"); assigned(v); }
GV_CONTRACT(C12, value) { obs& o = setup_obs(); const Val r = o.value(); gv::ensures(r == pre_ & post_ == pre_ & !toggled_ & calls_ == 0, "value returns the value and changes nothing"); done(); }
GV_CONTRACT(C12, conversion) { obs& o = setup_obs(); const Val r = o; gv::ensures(r == pre_ & post_ == pre_ & !toggled_ & calls_ == 0, "value returns the value and changes nothing"); const obs& c = o; const Val q = c; gv::ensures(q == pre_ & post_ == pre_ & !toggled_ & calls_ == 0, "value returns the value and changes nothing"); done(); }
GV_CONTRACT(C12, toggle) { obs& o = setup_obs(); const bool b = gv::any<bool>("enable"); o.callback_enabled(b); gv::ensures(enabled_ == b & changes_ == 0 & calls_ == 0, "toggling sets callback_enabled and changes nothing else"); done(); const bool e = o.callback_enabled(); gv::ensures(e == enabled_ & changes_ == 0 & calls_ == 0, "callback_enabled tells whether the callback is enabled"); done(); }
GV_CONTRACT(C12, construct) { const uint64_t v = gv::count("value"); Val c(v); std::function<void(Val)> f = [](Val) { ++calls_; }; obs* o = gv_split(gv::any<bool>("from an lvalue")) ? new (omem_) obs((const Val&)c, f) : new (omem_) obs(Val(v), f); gv::ensures(calls_ == 0 & o->_value.v == v & (bool)*(bool*)&o->_is_callback_enabled & c.v == v, "construction sets the value, enables the callback and does not invoke it"); }
// stopwatch and rate limiter
static int64_t st(const tc::sdk::stopwatch& w) { return w.start_time().time_since_epoch().count(); }
GV_CONTRACT(C27, stopwatch_start) { tc::sdk::stopwatch w; gv::ensures(clock_ & st(w) >= r0_ & st(w) <= r1_, "a stopwatch starts when it is constructed"); clock_ = read_ = false; w.reset(); gv::ensures(clock_ & st(w) >= r0_ & st(w) <= r1_, "reset restarts the stopwatch"); }
template <typename D> static void elapsed_as(int64_t unit)
{
    tc::sdk::stopwatch w; const int64_t s = instant("start"); w._start_time = at_ns(s); clock_ = read_ = false; const auto e = w.template elapsed<D>().count(); gv::ensures(st(w) == s, "reading does not restart the stopwatch");
    const int64_t d0 = r0_ - s, d1 = r1_ - s; gv::ensures(clock_ & r0_ == r1_, "the clock is read once"); gv::ensures(d0 >= 0 ? e * unit <= d1 & e * unit > d0 - unit : e * unit >= d0 & e * unit < d1 + unit, "elapsed is the time since the last start, truncated to the unit");
}
GV_CONTRACT(C27, stopwatch_elapsed) { tc::sdk::stopwatch w; const int64_t s = instant("start"); w._start_time = at_ns(s); clock_ = read_ = false; const int64_t e = w.elapsed().count(); gv::ensures(clock_ & e >= r0_ - s & e <= r1_ - s & st(w) == s, "elapsed is the time since the last start"); }
GV_CONTRACT(C27, stopwatch_us) { elapsed_as<std::chrono::microseconds>(1000); }
GV_CONTRACT(C27, stopwatch_ms) { elapsed_as<std::chrono::milliseconds>(1000000); }
GV_CONTRACT(C27, stopwatch_s) { elapsed_as<std::chrono::seconds>(1000000000); }
GV_CONTRACT(C27, rate_construct) { const uint64_t n = (uint64_t)gv_any_range("rate", 1, 1000000000); tc::sdk::rate_limiter r(n); const double f = r.time_between_frames.count(), t = r.tp.time_since_epoch().count(); gv::ensures(f * (double)n == 1.0, "the period is 1/rate seconds"); gv::ensures(clock_ & t * 1e9 >= (double)r0_ & t * 1e9 <= (double)r1_, "the first period starts when the limiter is constructed"); }
GV_CONTRACT(C27, rate_sync)
{
    tc::sdk::rate_limiter r(1); const double f = gv::any<double>("period"), t = gv::any<double>("last due"); gv_assume(f > 0.0 && f <= 1.0 && t >= 0.0 && t <= 1e9); using fd = std::remove_const_t<decltype(r.time_between_frames)>; const_cast<fd&>(r.time_between_frames) = fd(f); r.tp = decltype(r.tp)(fd(t)); clock_ = read_ = false; asleep_ = 0;
    r.sync(); gv::ensures(r.tp.time_since_epoch().count() == t + f, "due times are construction + n/rate, whatever delays occur"); gv::ensures(r.time_between_frames.count() == f, "the period is kept");
    gv::ensures(clock_ && (double)(r1_ + asleep_) > (t + f) * 1e9 - 2.0, "sync does not return before its due time"); // 2 ns: the truncation of the request to whole nanoseconds
}
// C29: the accesses of each operation, with the mutexes held, are recorded; every pair is then examined
#define RACE(name, ...) GV_CONTRACT(C29, name) { race_ = true; __VA_ARGS__; done(); }
RACE(timer_worker, timer& t = setup(WORK, true); t.start(ns(iv_)))
RACE(timer_start, timer& t = setup(START, true); t.start(ns(iv_)))
RACE(timer_start_none, timer& t = setup(START, false); t.start(ns(iv_)))
RACE(timer_stop, timer& t = setup(STOP, true); t.stop())
RACE(timer_destroy, timer& t = setup(STOP, true); gv::op = gv::DESTROY; t.~timer())
RACE(timer_counters, timer& t = setup(READ, true); t.invoked_callback_count(); t.missed_callback_count())
RACE(timer_set_callback, timer& t = setup(OTHER, gv_split(gv::any<bool>("callback set"))); t.set_callback([](int) { ++calls_; }, 1))
RACE(observable_assign, obs& o = setup_obs(); const Val c(gv::count("new value")); o = c)
RACE(observable_move, obs& o = setup_obs(); o = Val(gv::count("new value")))
RACE(observable_value, obs& o = setup_obs(); o.value(); const Val r = o; const obs& c = o; const Val q = c)
RACE(observable_toggle, obs& o = setup_obs(); o.callback_enabled(gv::any<bool>("enable")))
RACE(observable_enabled, obs& o = setup_obs(); o.callback_enabled())
#endif

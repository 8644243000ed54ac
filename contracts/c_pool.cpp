#ifdef GV_NATIVE
#include <gv/gv.hpp>
#include <gv/sched.hpp>
#include <stdexcept>
#include <string>
#include <teiacare/sdk/thread_pool.hpp>
#include <thread_pool.cpp>
#include <vector>
static unsigned hw = 4;
unsigned std::thread::hardware_concurrency() noexcept { return hw; }
using pool = tc::sdk::thread_pool;
struct Counted // counts copies' content: the task must see the argument as it was at submission
{
    int v;
};
GV_CONTRACT(C03, sched_tasks)
{
    hw = 4; const int workers = gv_any_range("workers", 1, 3), subs = gv_any_range("submitters", 1, 2), per = gv_any_range("tasks", 1, 4), mask = gv_any_range("throwing", 0, 255);
    gv::schedule("every accepted task is run", [&] {
        const int total = subs * per; std::vector<int> runs(total, 0), sum(total, 0), order; bool held = false, value = true, raised = true; int done = 0;
        {
            pool p; p.start(workers);
            std::vector<std::thread> th; std::vector<std::vector<std::future<int>>> fu(subs);
            for (int s = 0; s < subs; ++s) th.emplace_back([&, s] {
                for (int k = 0; k < per; ++k)
                {
                    const int id = s * per + k; Counted c{id * 7}; std::string str(40, 'a' + id);
                    auto f = p.run([&, id](Counted& a, const std::string& b, int x) -> int { runs[id]++; order.push_back(id); held |= gv_mutexes_held() != 0; sum[id] = a.v + x + (b == std::string(40, 'a' + id) ? 0 : 1000); if (mask >> (id % 8) & 1) throw id; return id + 1; }, c, str, id * 3);
                    c.v = -1; str = "changed"; fu[s].push_back(std::move(f));
                }
            });
            for (auto& t : th) t.join();
            for (int s = 0; s < subs; ++s) for (int k = 0; k < per; ++k)
            {
                const int id = s * per + k; const bool thr = mask >> (id % 8) & 1;
                try { const int r = fu[s][k].get(); value &= !thr && r == id + 1; } catch (int e) { raised &= thr && e == id; }
            }
            gv::ensures(p.is_running() && gv_live_threads() == workers, "a throwing task does not kill its worker");
        }
        for (int k = 0; k < total; ++k) { gv::ensures(runs[k] == 1, "every submitted task is invoked exactly once"); gv::ensures(sum[k] == k * 10, "the task is called with copies of the arguments given"); }
        gv::ensures(value, "the future yields the value the task returned"); gv::ensures(raised, "the future yields the exception the task threw");
        if (workers == 1) { std::vector<int> last(subs, -1); for (int id : order) { gv::ensures(id > last[id / per], "tasks are started in submission order"); last[id / per] = id; } }
    });
}
static unsigned clampn(unsigned n, unsigned h) { return n < 1 ? 1 : n > h ? h : n; }
GV_CONTRACT(C04, sched_history)
{
    hw = gv_any_range("hardware", 1, 4); const int steps = gv_any_range("steps", 1, 10); const bool destroy = gv::any<bool>("destroy");
    gv::schedule("start and stop return", [&] {
        int ran = 0, begun = 0; std::vector<std::future<void>> fu;
        {
            pool p; bool running = false; unsigned n = 0;
            gv::ensures(!p.is_running() && p.threads_count() == 0, "a new pool is stopped");
            for (int k = 0; k < steps; ++k)
            {
                const int op = gv_any_range("op", 0, 3); bool stopped = false;
                if (op == 0) { const unsigned w = gv_any_range("threads", 0, 6); const bool r = p.start(w); gv::ensures(r == !running, "start returns true exactly when the pool was stopped"); if (!running) { running = true; n = clampn(w, hw); } }
                else if (op == 1) { const bool r = stopped = p.stop(); gv::ensures(r == running, "stop returns true exactly when the pool was running"); gv::ensures(ran == begun, "stop waits for running tasks"); running = false; n = 0; }
                else { fu.push_back(p.run([&] { ++begun; gv_yield(); ++ran; })); if (op == 3 && running) fu.back().wait(); }
                gv::ensures(p.is_running() == running, "is_running tells whether the pool runs");
                gv::ensures(p.threads_count() == n, "the pool has clamp(n, 1, hardware_concurrency) workers while running and none when stopped");
                gv::ensures(gv_live_threads() == (int)n, "exactly the pool's workers are alive");
                if (stopped) { const int before = ran; gv_settle(); gv::ensures(ran == before, "tasks not started are discarded by stop"); for (auto& f : fu) gv::ensures(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "every task submitted before stop has run or is discarded"); fu.clear(); }
            }
            if (!destroy) p.stop();
        }
        gv::ensures(gv_live_threads() == 0, "every worker is joined when the destructor returns"); gv::ensures(ran == begun, "stop waits for running tasks");
    });
}
GV_CONTRACT(C04, sched_race)
{
    hw = 3; const int a = gv_any_range("threads", 1, 3), b = gv_any_range("threads2", 1, 3); const bool first = gv::any<bool>("running first");
    gv::schedule("start and stop return", [&] {
        pool p; if (first) p.start(a);
        bool r1 = false, r2 = false; std::thread t([&] { r1 = first ? p.stop() : p.start(b); }); r2 = first ? p.stop() : p.start(a); t.join();
        gv::ensures(r1 != r2, "of two concurrent starts (stops) exactly one succeeds");
        gv::ensures(p.is_running() == !first, "the pool is in the state the successful call asked for");
        gv::ensures(gv_live_threads() == (first ? 0 : r1 ? b : a), "exactly the pool's workers are alive");
        if (!first) { auto f = p.run([] { return 5; }); gv::ensures(f.get() == 5, "a started pool runs tasks"); }
    });
}
GV_CONTRACT(C04, sched_stop_busy)
{
    hw = 3; const int w = gv_any_range("threads", 1, 3), k = gv_any_range("tasks", 0, 6); const bool dtor = gv::any<bool>("destructor");
    gv::schedule("stop returns once the running tasks return", [&] {
        int begun = 0, ended = 0; bool back = false, late = false;
        {
            pool p; p.start(w);
            for (int j = 0; j < k; ++j) p.run([&] { late |= back; ++begun; gv_yield(); gv_yield(); ++ended; });
            if (!dtor) { p.stop(); back = true; gv::ensures(p.threads_count() == 0 && !p.is_running() && gv_live_threads() == 0, "stop leaves no worker"); gv::ensures(p.start(1), "a stopped pool can be started again"); back = false; int x = 0; p.run([&] { x = 1; }).get(); gv::ensures(x == 1, "a restarted pool runs tasks"); }
        }
        gv::ensures(begun == ended && !late && gv_live_threads() == 0, "no task runs after stop returned");
    });
}
GV_CONTRACT(C05, sched_rendezvous)
{
    hw = 4; const int w = gv_any_range("threads", 1, 3), before = gv_any_range("warmup", 0, 3), subs = gv_any_range("submitters", 1, 3);
    gv::schedule("no task stays queued while a worker sleeps", [&] {
        pool p; p.start(w); int here = 0; bool held = false; std::mutex m; std::condition_variable c;
        for (int k = 0; k < before; ++k) p.run([&] { held |= gv_mutexes_held() != 0; });
        // w tasks that wait for one another: all w workers are needed at once
        auto task = [&] { held |= gv_mutexes_held() != 0; std::unique_lock l(m); if (++here == w) c.notify_all(); c.wait(l, [&] { return here >= w; }); };
        std::vector<std::thread> th; std::vector<std::future<void>> fu(w);
        for (int s = 0; s < subs; ++s) th.emplace_back([&, s] { for (int k = s; k < w; k += subs) fu[k] = p.run(task); });
        for (auto& t : th) t.join();
        for (auto& f : fu) f.get();
        gv::ensures(!held, "no mutex of the pool is held while a task runs");
    });
}
GV_CONTRACT(C05, sched_stop)
{
    hw = 3; const int w = gv_any_range("threads", 1, 3), k = gv_any_range("tasks", 0, 3); const bool other = gv::any<bool>("submit during stop"), nested = gv::any<bool>("nested");
    gv::schedule("stop terminates once the running tasks return", [&] {
        pool p; p.start(w); std::thread t;
        if (other) t = std::thread([&] { for (int j = 0; j < k; ++j) p.run([] {}); });
        for (int j = 0; j < k; ++j) p.run([&] { if (nested) p.run([] {}); gv_yield(); });
        p.stop(); if (t.joinable()) t.join();
        gv::ensures(gv_live_threads() == 0, "stop leaves no worker");
    });
}
GV_CONTRACT(C04, sched_discard)
{
    hw = 3; const int w = gv_any_range("threads", 1, 3), k = gv_any_range("tasks", 1, 4), in = gv_any_range("nested", 0, 2);
    gv::schedule("stop returns once the running tasks return", [&] {
        pool p; p.start(w); int runs = 0; std::vector<std::future<void>> fu, nf;
        for (int j = 0; j < k; ++j) fu.push_back(p.run([&] { ++runs; for (int q = 0; q < in; ++q) { nf.push_back(p.run([&] { ++runs; })); gv_yield(); } }));
        p.stop(); const int b = runs;
        for (auto& f : fu) gv::ensures(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "tasks not started when stop returns are discarded");
        for (auto& f : nf) gv::ensures(f.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "tasks not started when stop returns are discarded");
        p.start(1); p.run([] {}).get(); gv::ensures(runs == b, "discarded tasks are not run after a restart");
    });
}
#else
// Monitor proof. The pool is known only through its monitor invariants: lifecycle (running flag, threads, threads_count) under the lifecycle mutex L,
// queue and sleepers under the task mutex T. Other threads may change everything whenever the mutex in question is free, keeping the invariants.
#include "stubs/atomics.hpp"
#include "stubs/threads.hpp"
#include "stubs/future.hpp"
#include <deque>
#include <list>
#include <queue>
#include <teiacare/sdk/task.hpp>
using tc::sdk::task;
static gv::FifoState* q_ = nullptr;
template <> struct gv::FifoItems<task>
{
    static void born(FifoState& s) { if (!q_) q_ = &s; }
    static void died(FifoState& s) { if (q_ == &s) q_ = nullptr; }
    static void take(Fifo<task>& to, Fifo<task>& from);
    static task make(uint64_t index); static void put(uint64_t index, const task& v); static void out(uint64_t index);
};
template <> class std::queue<task> : public gv::Fifo<task> { public: using gv::Fifo<task>::Fifo; };
template <> class std::deque<task> : public gv::Fifo<task> { public: using gv::Fifo<task>::Fifo; };
template <> class std::list<task> : public gv::Fifo<task> { public: using gv::Fifo<task>::Fifo; };
#include <teiacare/sdk/thread_pool.hpp>
#include <thread_pool.cpp>
using pool = tc::sdk::thread_pool;
static int prop_; // 3: exactly once, in order (C03), 4: lifecycle (C04), 5: wake-ups (C05)
static void once(bool c, const char* l) { if (prop_ == 3) gv::ensures(c, l); }
static void life(bool c, const char* l) { if (prop_ == 4) gv::ensures(c, l); }
static void wake(bool c, const char* l) { if (prop_ == 5) gv::ensures(c, l); }
enum { OTHER, WORKER, SUBMIT, START, STOP };
static int mode_, discover_; // discover: 1 finding the atomics, 2 start, 3 worker
static void *L_, *T_, *cv_; static const volatile void *flag_, *cnt_; static std::vector<std::thread>* vec_; static std::thread::_State* body_;
static int worker_arrives_; static bool worker_waits_;
// task mutex
static bool fresh_, known_, woken_; static uint64_t h0_, t0_; static int added_; static uint64_t nput_; static bool odd_; static bool debt_all_; static uint64_t debt_; static int discipline_;
static uint64_t asleep_, awake_, owe1_, oweall_;
alignas(task) static unsigned char put_[sizeof(task)]; static bool saw_false_, checked_; static bool have_; static uint64_t taken_, invoked_;
// lifecycle
static bool R_, fstop_, fstart_, tsec_, allwoken_, dsec_, latched_; static int changes_; static bool odd_change_; static uint64_t started_, n_, loaded_; static bool loaded_set_;
static bool served(uint64_t n) { return (asleep_ == 0) | (oweall_ > 0) | (discipline_ == 0 ? n == 0 : n <= awake_ + owe1_); }
void gv::fifo_sync(FifoState& s)
{
    gv::ensures(gv::holds(T_), "tasks are only touched under the task mutex");
    if (discover_) { s.head = s.tail = 5; known_ = true; h0_ = t0_ = 5; return; }
    s.head = count("head"); s.tail = count("tail"); gv_assume(s.head <= s.tail);
    asleep_ = count("asleep"); awake_ = count("woken"); owe1_ = count("notify_one to come"); oweall_ = count("notify_all to come"); gv_assume(served(s.tail - s.head));
    if (woken_) { gv_assume(awake_ > 0); --awake_; woken_ = false; }
    h0_ = s.head; t0_ = s.tail; known_ = true;
}
struct Ghost { uint64_t index; void operator()() { once(have_ & taken_ == index, "a task taken from the queue is invoked exactly once"); wake(gv::held.n == 0, "no mutex of the pool is held while a task runs"); have_ = false; taken_ = 0; } };
task gv::FifoItems<task>::make(uint64_t index) { return task(Ghost{index}); }
void gv::FifoItems<task>::put(uint64_t index, const task& v) { if (nput_++ == 0) new (put_) task(std::move(const_cast<task&>(v))); }
void gv::FifoItems<task>::out(uint64_t index) { if (mode_ == STOP) return; once(mode_ == WORKER, "only workers take tasks"); once(!have_, "a task taken from the queue is invoked exactly once"); have_ = true; taken_ = index; }
void gv::FifoItems<task>::take(Fifo<task>& to, Fifo<task>& from)
{
    if (&to.s == q_) { if (!from.empty()) gv_unsupported("a queue of tasks is replaced"); to.clear(); once(mode_ == STOP, "only stop discards tasks"); }
    else if (&from.s == q_) { from.empty(); to.s.head = from.s.head; to.s.tail = from.s.tail; from.clear(); once(mode_ == STOP, "only stop discards tasks"); }
    else { to.s = from.s; to.s.cached = false; from.clear(); }
}
static void tclear() { q_->stale = true; q_->head = q_->tail = 0; q_->cached = false; known_ = false; checked_ = false; h0_ = t0_ = 0; asleep_ = awake_ = owe1_ = oweall_ = 0; }
void gv_on_acquire(void* m)
{
    if (discover_ == 2 && !L_) L_ = m;
    if (discover_ == 3 && !T_) T_ = m;
    if (m == L_ && !discover_)
    {
        life(mode_ != WORKER, "workers do not take the lifecycle mutex");
        R_ = gv::any<bool>("running"); if (prop_ == 29) { R_ = gv_split(R_); gv::solo = !R_; } n_ = R_ ? gv::count("workers", 1) : 0; *(bool*)flag_ = R_; *(uint64_t*)cnt_ = n_; vec_->n = n_; vec_->jlo = vec_->jhi = 0; vec_->idx = 0; vec_->cur._M_id = {};
        started_ = 0; fstop_ = fstart_ = tsec_ = allwoken_ = dsec_ = latched_ = false;
    }
    if (m == T_) tclear();
}
void gv_on_release(void* m)
{
    if (m == L_ && !discover_)
    {
        const bool f = *(bool*)flag_; const uint64_t c = *(uint64_t*)cnt_;
        if (f) { life(vec_->n >= 1 & vec_->jlo == vec_->jhi, "a running pool has at least one live worker"); life(c == vec_->n, "threads_count is the number of workers"); }
        else { life(vec_->n == 0, "a stopped pool has no worker"); life(c == 0, "threads_count of a stopped pool is 0"); }
        if (R_ & !f) { life(fstop_, "stop clears the running flag"); life(dsec_, "when stop returns the tasks not started are discarded"); }
        gv::solo = mode_ == STOP;
        if (f != R_) ++changes_;
        else life(started_ == 0 & !fstop_ & !fstart_, "start on a running pool and stop on a stopped one change nothing");
    }
    if (m != T_) return;
    if (!known_ && (woken_ || (mode_ == STOP && fstop_))) { q_->stale = false; gv::fifo_sync(*q_); }
    if (mode_ == STOP && fstop_) { tsec_ = true; if ((vec_->n == 0 | (vec_->jlo == 0 & vec_->jhi == vec_->n)) & q_->head == q_->tail) dsec_ = true; }
    if (!known_ || discover_) { tclear(); return; }
    const uint64_t n = q_->tail - q_->head, dh = q_->head - h0_, dt = q_->tail - t0_;
    if (dt) { added_ += 1; odd_ |= dt != 1 | nput_ != 1 | dh != 0; }
    if (mode_ == WORKER) once(dt == 0 & dh <= 1, "a worker takes one task at a time"); if (mode_ == SUBMIT) once(dh == 0, "run takes no task");
    const bool leaving = mode_ == STOP | (mode_ == WORKER & saw_false_);
    if (!leaving && !served(n)) { debt_all_ = true; debt_ = n - awake_ - owe1_; }
    tclear();
}
void gv_on_sleep(void* cv, void* m, bool timed)
{
    if (discover_ == 3) { cv_ = cv; return; }
    wake(mode_ == WORKER, "only workers block"); once(!have_, "a task taken from the queue is invoked exactly once");
    if (mode_ != WORKER) { gv_unsupported("blocking operations of the pool"); }
    wake(!debt_all_, "no worker is left asleep while a task is queued"); wake(cv == cv_ & m == T_, "a worker sleeps where it is notified");
    wake(known_ && q_->head == q_->tail, "a worker never sleeps while a task is queued"); wake(checked_ & !saw_false_, "a worker never sleeps through stop");
    ++asleep_;
}
void gv_on_wake(void*, void*) { if (discover_) { *(bool*)flag_ = false; return; } woken_ = true; }
void gv_on_notify(void* cv, bool all)
{
    if (discover_ || cv != cv_) return;
    const bool in = gv::holds(T_);
    if (in && !known_) { q_->stale = false; gv::fifo_sync(*q_); }
    if (all) { debt_all_ = false; debt_ = 0; if (in) { awake_ += asleep_; asleep_ = 0; } if (mode_ == STOP && fstop_ && (tsec_ || in)) allwoken_ = true; }
    else if (discipline_ == 1) { if (debt_all_) { if (debt_ <= 1) { debt_all_ = false; debt_ = 0; } else --debt_; } if (in && asleep_ > 0) { --asleep_; ++awake_; } }
}
uint64_t gv_on_load(const volatile void* a, uint64_t raw, bool boolean)
{
    if (discover_ == 1) { if (boolean) { if (!flag_) flag_ = a; } else if (!cnt_) cnt_ = a; return raw; }
    if (discover_ || (L_ && gv::holds(L_))) return raw;
    if (a == flag_)
    {
        if (mode_ != WORKER) { loaded_ = gv::any<bool>("running"); loaded_set_ = true; return loaded_; }
        if (saw_false_) return 0;
        const bool v = gv::any<bool>("running"); if (v) checked_ = gv::holds(T_); else saw_false_ = true; return v;
    }
    if (a == cnt_) { loaded_ = gv::count("threads"); loaded_set_ = true; return loaded_; }
    gv_unsupported("another atomic"); return raw;
}
void gv_on_store(volatile void* a, uint64_t v)
{
    if (discover_) return;
    if (a != flag_ && a != cnt_) { gv_unsupported("another atomic"); return; }
    life(gv::holds(L_), "the lifecycle is only changed under its mutex");
    if (a != flag_) return;
    if (v) { fstart_ = true; life(vec_->n == 0 | !fstop_, "the pool is restarted after its workers were joined"); }
    else { fstop_ = true; if (mode_ == START) life(false, "start leaves the pool running"); }
}
void gv_on_vector(void* v) { if (!vec_) vec_ = (std::vector<std::thread>*)v; }
void gv_on_thread(std::thread::_State* b) { if (discover_) { body_ = b; return; } life(mode_ == START & gv::holds(L_), "only start creates workers, under the lifecycle mutex"); life(*(bool*)flag_ | worker_waits_, "a new worker finds the pool running"); ++started_; gv::solo = false; }
bool gv_keep_body() { return discover_; }
void gv_on_join(std::thread* t)
{
    if (discover_) return; if (t != &vec_->cur) { gv_unsupported("another thread is joined"); return; }
    wake(allwoken_, "stop wakes every worker before it waits for them: running flag cleared, task mutex taken, then notify_all"); life(gv::held.n == 1 && gv::holds(L_), "stop waits for the workers without holding a mutex they need");
    vec_->mark();
}
void gv_on_latch(int64_t expected, int64_t arrive, bool wait)
{
    if (discover_ == 3) { worker_arrives_ += arrive; worker_waits_ |= wait; return; }
    if (discover_) return;
    if (mode_ == START) { life(expected == arrive + (worker_arrives_ == 1 ? (int64_t)started_ : 0) & !latched_, "start waits for exactly its workers"); life(*(bool*)flag_ | !worker_waits_, "a new worker finds the pool running"); latched_ = true; }
    else if (mode_ == WORKER) { life(arrive == worker_arrives_ & !latched_ & gv::held.n == 0, "every worker arrives exactly once"); latched_ = true; }
    else gv_unsupported("latch outside of start and worker");
}
void gv_on_future(unsigned*) { gv_unsupported("waiting for a future"); }
alignas(pool) static unsigned char mem_[sizeof(pool)];
static pool& setup(int mode)
{
    gv::hw = 4; pool& p = *new (mem_) pool;
    discover_ = 1; gv::ensures(!p.is_running(), "a new pool is stopped"); gv::ensures(p.threads_count() == 0, "a new pool has no worker"); gv::ensures(flag_ && cnt_, "is_running and threads_count are atomic");
    discover_ = 2; gv::ensures(p.start(1), "a stopped pool can be started"); gv::ensures(body_ && L_ && vec_->n == 1 && p.is_running() && p.threads_count() == 1, "start(1) starts one worker");
    discover_ = 3; { std::thread::_State* b = body_; b->_M_run(); } gv::ensures(T_ && cv_, "a worker sleeps on an empty queue");
    discover_ = 0; *(bool*)flag_ = false; *(uint64_t*)cnt_ = 0; vec_->n = vec_->jlo = vec_->jhi = 0; mode_ = mode; gv::hw = (unsigned)gv_any_range("hardware", 1, 1ll << 20);
    gv::race_op = prop_ != 29 ? 0 : mode == WORKER ? gv::BODIES : mode == START || mode == STOP ? gv::CONTROL : gv::USER; gv::race(mem_, sizeof(mem_)); return p;
}
static void done() { gv::op = 0; gv::ensures(gv::held.n == 0, "every mutex is released"); wake(!debt_all_, "no worker is left asleep while a task is queued"); once(!have_, "a task taken from the queue is invoked exactly once"); }
static unsigned clampn(unsigned n, unsigned h) { return n < 1 ? 1 : n > h ? h : n; }
#define POOL(p, mode) pool& p = setup(mode);
#define V(name, v, ...) GV_CONTRACT(C05, name##__v##v) { prop_ = 5; discipline_ = v; __VA_ARGS__ }
#define P3(name, ...) GV_CONTRACT(C03, name) { prop_ = 3; discipline_ = 1; __VA_ARGS__ }
#define P4_(name, ...) GV_CONTRACT(C04, name) { prop_ = 4; discipline_ = 1; __VA_ARGS__ }
#define P4(name, ...) P29(name, __VA_ARGS__) P4_(name, __VA_ARGS__)
#define P5(name, ...) V(name, 0, __VA_ARGS__) V(name, 1, __VA_ARGS__)
#define P29(name, ...) GV_CONTRACT(C29, pool_##name) { prop_ = 29; discipline_ = 1; __VA_ARGS__ } // the accesses of each operation, with the mutexes held, are recorded; every pair is then examined
#define P345(name, ...) P29(name, __VA_ARGS__) P3(name, __VA_ARGS__) P4_(name, __VA_ARGS__) P5(name, __VA_ARGS__)
P345(start, { POOL(p, START) const unsigned n = (unsigned)gv_any_range("threads", 0, 0xffffffffll); const bool r = p.start(n);
    life(r == (changes_ == 1), "start returns true exactly when the pool was stopped"); life(r | (R_ & changes_ == 0), "start returns true exactly when the pool was stopped");
    if (r) { life(!R_ & fstart_ & started_ == clampn(n, gv::hw) & vec_->n == started_, "start(n) runs clamp(n, 1, hardware_concurrency) workers"); gv::cover("starts"); } else gv::cover("was running"); done(); })
P345(stop, { POOL(p, STOP) const bool r = p.stop();
    life(r == (changes_ == 1), "stop returns true exactly when the pool was running"); life(r | (!R_ & changes_ == 0), "stop returns true exactly when the pool was running"); if (r) gv::cover("stops"); else gv::cover("was stopped"); done(); })
P345(destroy, { POOL(p, STOP) if (gv::op) gv::op = gv::DESTROY; p.~pool(); life(changes_ == 1 | !R_, "the destructor stops a running pool"); done(); gv::cover("destroyed"); })
P345(worker, { POOL(p, WORKER) body_->_M_run(); wake(saw_false_, "a worker only ends when the pool is stopped"); life(saw_false_, "a worker only ends when the pool is stopped"); life(latched_ | worker_arrives_ == 0, "every worker arrives exactly once"); done(); gv::cover("a worker ends"); })
GV_CONTRACT(C05, exit__v0) { prop_ = 5; discipline_ = 0; POOL(p, WORKER) saw_false_ = true; body_->_M_run(); done(); gv::cover("ends"); }
GV_CONTRACT(C05, exit__v1) { prop_ = 5; discipline_ = 1; POOL(p, WORKER) saw_false_ = true; body_->_M_run(); done(); gv::cover("ends"); }
P4(is_running, { POOL(p, OTHER) const bool r = p.is_running(); life(loaded_set_ && r == (bool)loaded_, "is_running tells whether the pool runs"); done(); })
P4(threads_count, { POOL(p, OTHER) const uint64_t r = p.threads_count(); life(loaded_set_ && r == loaded_, "threads_count is the number of workers"); done(); })
struct Arg { uint64_t v; Arg(uint64_t x) : v(x) {} Arg(const Arg& o) : v(o.v) {} Arg& operator=(const Arg& o) { v = o.v; return *this; } };
static int calls_; static uint64_t seen_; static int seen2_;
#define SUBMITTED once(added_ == 1 & !odd_, "run enqueues exactly one task"); once(calls_ == 0, "the callable is run by a worker"); done()
#define INVOKE(...) { bool out = false; try { const task t(std::move(*reinterpret_cast<task*>(put_))); t(); } catch (...) { out = true; } once(!out, "a throwing task does not reach the worker"); once(calls_ == 1, "invoking the task calls the callable exactly once"); }
P345(run_value, { POOL(p, SUBMIT) const uint64_t a = gv::count("a"); const int b = gv::any<int>("b"); const uint64_t r = gv::count("result"); Arg x(a); int y = b;
    auto f = [r](Arg& i, int j) { ++calls_; seen_ = i.v; seen2_ = j; return Arg(r); }; std::future<Arg> u = p.run(f, x, y); SUBMITTED; if (prop_ != 3) return; x.v = a + 1; y = 0;
    INVOKE() once(seen_ == a & seen2_ == b, "the callable gets copies of the arguments given"); once(u.get().v == r, "the future yields the value the callable returned"); gv::cover("value"); })
P345(run_void, { POOL(p, SUBMIT) std::future<void> u = p.run([] { ++calls_; }); SUBMITTED; if (prop_ != 3) return; INVOKE() bool ok = true; try { u.get(); } catch (...) { ok = false; } once(ok, "the future of a void task becomes ready"); gv::cover("void"); })
P345(run_throw, { POOL(p, SUBMIT) const uint64_t a = gv::count("a"); std::future<int> u = p.run([](const Arg& i) -> int { ++calls_; seen_ = i.v; throw Arg(i.v); }, Arg(a)); SUBMITTED; if (prop_ != 3) return; INVOKE() once(seen_ == a, "the callable gets copies of the arguments given"); bool ok = false; try { u.get(); } catch (const Arg& e) { ok = e.v == a; } once(ok, "the future yields the exception the callable threw"); gv::cover("throws"); })
GV_CONTRACT(C04, construct) { prop_ = 4; gv::hw = 1; pool& p = *new (mem_) pool; discover_ = 1; life(!p.is_running() & p.threads_count() == 0, "a new pool is stopped"); life(vec_ && vec_->n == 0 && !body_, "a new pool has no worker"); }
#endif

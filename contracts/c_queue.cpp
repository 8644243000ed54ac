#include <gv/gv.hpp>
#ifdef GV_NATIVE
#include <gv/sched.hpp>
#include <teiacare/sdk/blocking_queue.hpp>
#include <thread>
#include <vector>
using queue = tc::sdk::blocking_queue<int>;
// producers and consumers on a small queue: everything is popped once, per-producer order is kept, nobody is stranded
static void pc(const char* stuck)
{
    const int cap = gv_any_range("capacity", 1, 3), np = gv_any_range("producers", 1, 3), nc = gv_any_range("consumers", 1, 3), per = gv_any_range("items", 1, 3);
    const int kinds = gv_any_range("kinds", 0, 3);
    const int total = np * per;
    gv::schedule(stuck, [&] {
        queue q(cap); std::vector<std::vector<int>> got(nc); bool over = false; int quota[3] = {0, 0, 0}; for (int k = 0; k < total; ++k) quota[k % nc]++;
        {
            std::vector<std::thread> th;
            for (int p = 0; p < np; ++p) th.emplace_back([&, p] { for (int k = 0; k < per; ++k) { const int v = p * 100 + k; if (kinds & 1) { while (!q.try_push(v)) gv_yield(); } else if (k & 1) { q.push(v); } else q.push(int(v)); over |= q.size() > (size_t)cap; } });
            for (int c = 0; c < nc; ++c) th.emplace_back([&, c] { for (int k = 0; k < quota[c]; ++k) { if (kinds & 2) { auto o = q.try_pop(); while (!o) { gv_yield(); o = q.try_pop(); } got[c].push_back(*o); } else got[c].push_back(q.pop()); } });
            for (auto& t : th) t.join();
        }
        std::vector<int> seen(np, 0), all;
        for (auto& g : got) { std::vector<int> last(np, -1); for (int v : g) { gv::ensures(v % 100 > last[v / 100], "items of one producer reach a consumer in push order"); last[v / 100] = v % 100; all.push_back(v); } }
        std::sort(all.begin(), all.end()); bool once = (int)all.size() == total; for (int k = 0; once && k < total; ++k) once = all[k] == k / per * 100 + k % per;
        gv::ensures(once, "every item pushed is popped exactly once"); gv::ensures(!over, "size never exceeds the capacity"); gv::ensures(q.size() == 0, "the queue is empty when everything was popped");
    });
}
GV_CONTRACT(C01, sched_fifo) { pc("push and pop return when their operation is possible"); }
GV_CONTRACT(C02, sched_stranded) { pc("no thread is stranded while its operation is possible"); }
#else
// Monitor proof: the queue is known only through the counters head <= tail <= head + capacity; another thread may change everything whenever
// the mutex is free, keeping the monitor invariant. Each operation is verified on its own against that invariant, for any number of threads.
#include "stubs/conc.hpp"
#include <deque>
#include <list>
#include <optional>
#include <queue>
struct Item { uint64_t v; Item(uint64_t x) : v(x) {} Item(const Item& o) : v(o.v) {} Item(Item&& o) : v(o.v) { o.v = 0; } Item& operator=(const Item& o) { v = o.v; return *this; } Item& operator=(Item&& o) { v = o.v; if (&o != this) o.v = 0; return *this; } };
static gv::FifoState* q_ = nullptr;
template <> struct gv::FifoItems<Item>
{
    static void born(FifoState& s) { if (!q_) q_ = &s; }
    static void died(FifoState& s) { if (q_ == &s) q_ = nullptr; }
    static void take(Fifo<Item>&, Fifo<Item>&) { gv_unsupported("moving whole containers"); } // not used by any operation of the queue
    static Item make(uint64_t index); static void put(uint64_t index, const Item& v); static void out(uint64_t index);
};
template <> class std::queue<Item> : public gv::Fifo<Item> {};
template <> class std::deque<Item> : public gv::Fifo<Item> {};
template <> class std::list<Item> : public gv::Fifo<Item> {};
#include <teiacare/sdk/blocking_queue.hpp>
using queue = tc::sdk::blocking_queue<Item>;
static int prop_; // 1: order and capacity (C01), 2: wake-ups (C02)
static void fifo(bool c, const char* l) { if (prop_ == 1) gv::ensures(c, l); }
static void wake(bool c, const char* l) { if (prop_ == 2) gv::ensures(c, l); }
enum { CONS = 0, PROD = 1 };
// ghost state
static uint64_t cap_;                      // what capacity() must be
extern void* m_;
static int discover_ = 0;                  // 1: pop on an empty queue, 2: push on a full one; tells which condition variable each kind of waiter uses
static void* cv_[2];
static int self_ = -1;                     // kind of waiter the operation under proof may become
static bool fresh_, known_, woken_;        // content unknown / known in this section, this thread was just woken
static uint64_t h0_, t0_;                  // content at the start of the section
static int effects_; static bool added_, removed_, odd_; static uint64_t addedv_, removedv_, nput_, putv_, frontv_; static bool full_, empty_; static uint64_t size_;
struct Waiters { uint64_t asleep, woken, owe1, oweall; bool debt_all; uint64_t debt; };
static Waiters w_[2];
static uint64_t room(int k, uint64_t n) { return k == CONS ? n : cap_ - n; } // operations of kind k that are possible with n items
// Monitor invariant for a kind of waiter. Discipline 0 (notify_all when an operation becomes possible): while someone sleeps, no operation of
// that kind is possible unless a notify_all is on its way. Discipline 1 (a notification per change): at most as many as threads woken or to be woken.
static int discipline_[2];
static bool served(int k, uint64_t r) { const Waiters& w = w_[k]; return (w.asleep == 0) | (w.oweall > 0) | (discipline_[k] == 0 ? r == 0 : r <= w.woken + w.owe1); }
void gv::fifo_sync(FifoState& s)
{
    gv::ensures(gv::holds(m_), "the items are only touched under the mutex of the queue");
    if (discover_) { s.head = 5; s.tail = discover_ == 1 ? 5 : 5 + cap_; h0_ = s.head; t0_ = s.tail; known_ = true; return; }
    s.head = count("head"); s.tail = count("tail"); gv_assume(s.head <= s.tail & s.tail - s.head <= cap_);
    for (int k = 0; k < 2; ++k) { Waiters& w = w_[k]; w.asleep = count("asleep"); w.woken = count("woken"); w.owe1 = count("notify_one to come"); w.oweall = count("notify_all to come"); gv_assume(served(k, room(k, s.tail - s.head))); }
    if (woken_) { gv_assume(w_[self_].woken > 0); --w_[self_].woken; woken_ = false; }
    h0_ = s.head; t0_ = s.tail; known_ = true;
}
Item gv::FifoItems<Item>::make(uint64_t index) { frontv_ = count("item"); return Item(frontv_); }
void gv::FifoItems<Item>::put(uint64_t index, const Item& v) { ++nput_; putv_ = v.v; }
void gv::FifoItems<Item>::out(uint64_t index) { removedv_ = frontv_; }
void* m_ = nullptr; // the queue's mutex
void gv_on_acquire(void* m) { if (!m_) m_ = m; if (m != m_) return; q_->stale = true; q_->head = q_->tail = 0; q_->cached = false; known_ = false; nput_ = 0; putv_ = 0; frontv_ = 0; h0_ = t0_ = 0; full_ = empty_ = false; size_ = 0; for (auto& w : w_) { w.asleep = w.woken = w.owe1 = w.oweall = 0; } }
void gv_on_release(void* m)
{
    if (m != m_) return;
    if (!known_) { if (!woken_) return; bool e = false; q_->stale = false; gv::fifo_sync(*q_); }
    if (discover_) return;
    const uint64_t n = q_->tail - q_->head, dh = q_->head - h0_, dt = q_->tail - t0_; full_ = n == cap_; empty_ = n == 0; size_ = n;
    fifo(q_->head <= q_->tail & n <= cap_, "size never exceeds the capacity");
    if (dh | dt) { ++effects_; added_ = dt == 1 & dh == 0 & nput_ == 1; removed_ = dh == 1 & dt == 0; addedv_ = putv_; odd_ |= !added_ & !removed_; }
    q_->stale = true; known_ = false;
    // waiters for whom an operation is now possible must be woken by this thread: note what it owes
    for (int k = 0; k < 2; ++k) { Waiters& w = w_[k]; const uint64_t r = room(k, n); if (!served(k, r)) { w.debt_all = true; w.debt = r - w.woken - w.owe1; } }
}
void gv_on_sleep(void* cv, void*, bool timed)
{
    if (discover_) { cv_[discover_ - 1] = cv; return; }
    wake(self_ >= 0, "only push and pop block"); if (self_ < 0) gv_prune();
    wake(!w_[0].debt_all & !w_[1].debt_all, "no thread is left asleep while its operation is possible");
    wake(cv == cv_[self_], "a waiter sleeps where it is notified"); fifo(effects_ == 0, "push and pop block before they change the queue");
    if (known_) { wake(room(self_, q_->tail - q_->head) == 0, "a thread is never blocked while its operation is possible"); ++w_[self_].asleep; }
    else wake(false, "a thread is never blocked while its operation is possible");
}
void gv_on_wake(void*, void*) { if (discover_) { q_->stale = false; q_->head = 5; q_->tail = discover_ == 1 ? 6 : 5 + cap_ - 1; known_ = true; h0_ = q_->head; t0_ = q_->tail; discover_ = discover_ == 1 ? 3 : 4; return; } woken_ = true; }
void gv_on_notify(void* cv, bool all)
{
    if (discover_) return;
    const bool in = gv::held.n > 0;
    if (in && !known_) { q_->stale = false; gv::fifo_sync(*q_); }
    for (int k = 0; k < 2; ++k) if (cv_[k] == cv)
    {
        Waiters& w = w_[k];
        if (all) { w.debt_all = false; w.debt = 0; if (in) { w.woken += w.asleep; w.asleep = 0; } }
        else if (cv_[0] != cv_[1] && discipline_[k] == 1) { if (w.debt_all) { if (w.debt <= 1) { w.debt_all = false; w.debt = 0; } else --w.debt; } if (in && w.asleep > 0) { --w.asleep; ++w.woken; } }
    }
}
static uint64_t arg_;
static void setup(queue& q, int self)
{
    cap_ = arg_ == 0 ? 1 : arg_; 
    discover_ = 1; q.pop(); gv::ensures(discover_ == 3, "pop blocks on an empty queue"); discover_ = 2; q.push(Item(1)); gv::ensures(discover_ == 4, "push blocks on a full queue"); discover_ = 0;
    self_ = self; effects_ = 0; added_ = removed_ = odd_ = false; woken_ = known_ = false; for (auto& w : w_) { w.debt_all = false; w.debt = 0; } gv::race(&q, sizeof(q));
}
static void done() { gv::op = 0; fifo(gv::held.n == 0, "every mutex is released"); wake(!w_[0].debt_all & !w_[1].debt_all, "no thread is left asleep while its operation is possible"); fifo(!odd_, "an operation adds or removes at most one item"); }
#define QUEUE(self) arg_ = gv::count("capacity"); queue q(arg_); setup(q, self); const uint64_t x = gv::count("value", 1); (void)x
static void push_post(uint64_t x) { fifo(effects_ == 1 & added_, "push returns only after having added exactly one item"); fifo(addedv_ == x, "the item added has the value pushed"); done(); }
static void try_push_post(bool r, uint64_t x) { fifo(r ? effects_ == 1 & added_ : effects_ == 0, "try_push adds exactly one item when it succeeds and changes nothing when it fails"); fifo(!r | addedv_ == x, "the item added has the value pushed"); fifo(r | full_, "try_push fails exactly when the queue is full"); done(); }
// one proof per choice of discipline; all operations must be proved with the same one
#define ONE(name, v, ...) GV_CONTRACT(C02, name##__v##v) { prop_ = 2; discipline_[0] = v & 1; discipline_[1] = v / 2; __VA_ARGS__ }
// C29: the accesses of each operation, with the mutexes held, are recorded; every pair is then examined
#define BOTH(name, ...) GV_CONTRACT(C29, queue_##name) { prop_ = 29; gv::race_op = gv::USER; __VA_ARGS__ } GV_CONTRACT(C01, name) { prop_ = 1; __VA_ARGS__ } ONE(name, 0, __VA_ARGS__) ONE(name, 1, __VA_ARGS__) ONE(name, 2, __VA_ARGS__) ONE(name, 3, __VA_ARGS__)
BOTH(push_copy, { QUEUE(PROD); const Item i(x); q.push(i); push_post(x); fifo(i.v == x, "push by reference leaves the item"); gv::cover("push returns"); })
BOTH(push_move, { QUEUE(PROD); q.push(Item(x)); push_post(x); gv::cover("push returns"); })
BOTH(try_push_copy, { QUEUE(-1); const Item i(x); const bool r = q.try_push(i); try_push_post(r, x); if (r) gv::cover("succeeds"); else gv::cover("fails"); })
BOTH(try_push_move, { QUEUE(-1); const bool r = q.try_push(Item(x)); try_push_post(r, x); if (r) gv::cover("succeeds"); else gv::cover("fails"); })
BOTH(pop, { QUEUE(CONS); const Item i = q.pop(); fifo(effects_ == 1 & removed_, "pop returns only after having removed exactly one item"); fifo(i.v == removedv_, "pop returns the oldest item"); done(); gv::cover("pop returns"); })
BOTH(try_pop, { QUEUE(-1); const std::optional<Item> o = q.try_pop(); fifo(o.has_value() ? effects_ == 1 & removed_ : effects_ == 0, "try_pop removes exactly one item when it succeeds and changes nothing when it fails"); if (o) { fifo(o->v == removedv_, "try_pop returns the oldest item"); gv::cover("succeeds"); } else { fifo(empty_, "try_pop fails exactly when the queue is empty"); gv::cover("fails"); } done(); })
BOTH(size, { QUEUE(-1); const uint64_t n = q.size(); fifo(n == size_ & n <= cap_, "size is the number of items"); fifo(effects_ == 0, "size changes nothing"); done(); })
BOTH(capacity, { QUEUE(-1); fifo(q.capacity() == cap_, "capacity is the constructor argument, at least 1"); fifo(effects_ == 0, "capacity changes nothing"); done(); })
GV_CONTRACT(C01, construct) { prop_ = 1; const uint64_t c = gv::count("capacity"); queue q(c); cap_ = c == 0 ? 1 : c; q_->stale = false; known_ = true; fifo(q_->head == q_->tail, "a new queue is empty"); }
#endif

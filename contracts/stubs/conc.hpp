// Ghost layer for the concurrent classes (IR build only). The real std::mutex, unique_lock, scoped_lock, condition_variable::wait(pred),
// std::thread constructors ... are executed as they are; only their external primitives are given a contract here:
// lock/unlock/wait/notify/thread start and join call the gv_on_* hooks that each contract unit defines (monitor invariant, ghost state).
#pragma once
#include <gv/gv.hpp>
#include <bits/atomic_base.h>
#include <condition_variable>
#include <mutex>
#include <chrono>
#include <cerrno>
extern "C" { void gv_havoc(void*, uint64_t); void gv_prune(); bool gv_split(bool); void gv_unsupported(const char* why);
    void gv_watch(void* p, uint64_t n);                         // accesses to these bytes by the code under contract are recorded, with the mutexes held (while gv::op is not 0)
    void gv_access(const void* p, uint64_t n, bool write);      // a container that a stub stands for is read or written
    void gv_edge(void* held, void* wanted); }                   // a mutex is taken while another one is held
void gv_on_acquire(void* m); void gv_on_release(void* m); void gv_on_sleep(void* cv, void* m, bool timed); void gv_on_wake(void* cv, void* m); void gv_on_notify(void* cv, bool all);
namespace gv
{
inline uint64_t count(const char* what, uint64_t lo = 0) { return gv_any_range(what, lo, 1ll << 60); }
struct Held { int n = 0; void* m[4] = {}; };
inline Held held;
enum { USER = 1, CONTROL, BODIES, BODY, DESTROY };            // which operation: any thread's, the controlling thread's, a body that many threads run, one that one thread runs
inline int op = 0; inline bool solo = false;                  // solo: no thread of the object exists
inline int race_op = 0;                                       // set by the contracts of C29: what the operation under proof is
inline void race(void* p, uint64_t n) { if (race_op) { gv_watch(p, n); op = race_op; } }
struct Running { int o; bool s; Running(int b) : o(op), s(solo) { if (op) op = b; solo = false; } ~Running() { op = o; solo = s; } };
inline bool holds(void* m) { for (int k = 0; k < held.n; ++k) if (held.m[k] == m) return true; return false; }
inline int64_t deadline = 0; // of the current timed wait, in ns
inline void lock_(void* m) { ensures(!holds(m), "no mutex is locked twice by one thread"); for (int k = 0; k < held.n; ++k) gv_edge(held.m[k], m); held.m[held.n++] = m; gv_on_acquire(m); }
inline void unlock_(void* m)
{
    ensures(holds(m), "only a mutex that is held is unlocked"); gv_on_release(m);
    int k = 0; while (k < held.n && held.m[k] != m) ++k;
    for (; k + 1 < held.n; ++k) held.m[k] = held.m[k + 1];
    held.m[--held.n] = nullptr;
}
inline void wait_(void* cv, void* m, bool timed)
{
    ensures(holds(m), "waiting needs the mutex to be held"); ensures(held.n == 1, "no other mutex is held while a thread sleeps on a condition variable");
    gv_on_sleep(cv, m, timed); unlock_(m); held.m[held.n++] = m; gv_on_acquire(m); gv_on_wake(cv, m);
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { gv::lock_(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (gv::any<bool>("mutex busy")) return EBUSY; gv::lock_(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { gv::unlock_(m); return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { gv::wait_(c, m, false); return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { gv::deadline = t->tv_sec * 1000000000 + t->tv_nsec; gv::wait_(c, m, true); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { gv::deadline = t->tv_sec * 1000000000 + t->tv_nsec; gv::wait_(c, m, true); return 0; }
}
std::condition_variable::condition_variable() noexcept {}
std::condition_variable::~condition_variable() noexcept {}
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { gv::ensures(l.owns_lock(), "waiting needs the mutex to be held"); gv::wait_(this, l.mutex()->native_handle(), false); }
void std::condition_variable::notify_one() noexcept { gv_on_notify(this, false); }
void std::condition_variable::notify_all() noexcept { gv_on_notify(this, true); }
// A FIFO container known only through two counters, the items being those numbered [head, tail), oldest first. It is the assumed contract of
// std::queue/deque/list/vector of the item type T. The contract unit gives fifo_sync (content of a fifo that other threads may have changed).
namespace gv
{
struct FifoState { bool stale = false; uint64_t head = 0, tail = 0; bool cached = false; };
void fifo_sync(FifoState&);
template <typename T> struct FifoItems; // per item type: T make(uint64_t index): the item with that number; void put(uint64_t index, const T&)
template <typename T> class Fifo
{
public:
    using value_type = T; using reference = T&; using const_reference = const T&; using size_type = std::size_t;
    mutable FifoState s; alignas(T) mutable unsigned char buf[sizeof(T)];
    Fifo() { FifoItems<T>::born(s); }
    Fifo(Fifo&& o) { FifoItems<T>::born(s); FifoItems<T>::take(*this, o); }
    Fifo& operator=(Fifo&& o) { FifoItems<T>::take(*this, o); return *this; }
    ~Fifo() { drop(); FifoItems<T>::died(s); }
    bool empty() const { sync(); return s.head == s.tail; }
    size_type size() const { sync(); return s.tail - s.head; }
    T& front() { sync(); ensures(s.head < s.tail, "front of a non-empty container"); if (!s.cached) { new (buf) T(FifoItems<T>::make(s.head)); s.cached = true; } return *reinterpret_cast<T*>(buf); }
    const T& front() const { return const_cast<Fifo*>(this)->front(); }
    void pop() { sync(); ensures(s.head < s.tail, "pop of a non-empty container"); drop(); FifoItems<T>::out(s.head); ++s.head; }
    void push(const T& v) { add(v); }
    void push(T&& v) { T x(std::move(v)); add(x); }
    template <typename... A> decltype(auto) emplace(A&&... a) { T x(std::forward<A>(a)...); add(x); return (*this); }
    void push_back(const T& v) { add(v); } void push_back(T&& v) { T x(std::move(v)); add(x); }
    template <typename... A> decltype(auto) emplace_back(A&&... a) { T x(std::forward<A>(a)...); add(x); return (*this); }
    void pop_front() { pop(); }
    void clear() { sync(); drop(); s.head = s.tail; }
    void swap(Fifo& o) { Fifo t(std::move(o)); o = std::move(*this); *this = std::move(t); }
private:
    void sync() const { gv_access(this, sizeof(*this), true); if (s.stale) { s.stale = false; fifo_sync(s); } }
    void drop() { if (s.cached) { reinterpret_cast<T*>(buf)->~T(); s.cached = false; } }
    void add(T& v) { sync(); FifoItems<T>::put(s.tail, v); ++s.tail; }
    void add(const T& v) { sync(); FifoItems<T>::put(s.tail, v); ++s.tail; }
};
}

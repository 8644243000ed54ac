#include <gv/gv.hpp>
#include <gv/sched.hpp>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>
extern "C" uint64_t gv_choice(const char* name, uint64_t dflt, uint64_t n); // native.cpp: replayed or the given default, recorded
extern "C" uint64_t gv_rng();
extern "C" void gv_die(const char* label);
static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
namespace
{
enum St { READY, RUN, MUTEX, CV, FUT, JOIN, SLEEP, DONE };
struct Th { int id; int go; St st; void* obj; bool timed; int64_t dl; bool timedout; void* (*fn)(void*); void* arg; void* ret; pthread_t pt; bool joined; long last; long since; bool granted; };
struct Mx { Th* owner; int cnt; };
bool on = false, idle_only = false, no_spur = false; const char* stuck = "no deadlock";
std::vector<Th*> T; std::map<void*, Mx> mx; int64_t vnow; long steps; int nspur; unsigned ppre, pspec; 
thread_local Th* me = nullptr;
void wake(Th* t) { __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); raw(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1); }
void park(Th* t) { while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0); t->go = 0; }
bool spin = false;
void schedule()
{
    std::vector<Th*> r, spur; bool timed = false;
    const bool sp = spin; spin = false;
    if (++steps > 200000) gv_die("the threads make progress (no endless loop of wakeups)");
    for (;;)
    {
        r.clear(); spur.clear(); timed = false; int64_t best = INT64_MAX;
        if (me->st == READY) r.push_back(me);
        for (auto t : T)
        {
            if (t != me && t->st == READY) r.push_back(t);
            if (t->st == CV && !no_spur && nspur < 3) spur.push_back(t);
            if (t->timed && (t->st == CV || t->st == FUT || t->st == SLEEP)) { timed = true; if (t->dl < best) best = t->dl; }
        }
        auto advance = [&] { if (best > vnow) vnow = best; for (auto t : T) if (t->timed && (t->st == CV || t->st == FUT || t->st == SLEEP) && t->dl <= vnow) { t->timedout = true; t->timed = false; t->st = READY; } };
        if (r.empty()) { if (!timed) gv_die(stuck); advance(); continue; }
        const size_t ns = (idle_only && 0) ? 0 : spur.size(), nt = (timed && !idle_only) ? 1 : 0;
        const size_t tot = r.size() + ns + nt; size_t c = 0;
        if (tot > 1)
        {
            uint64_t d = 0; size_t old = 0; for (size_t k = 1; k < r.size(); ++k) if (r[k]->last < r[old]->last) old = k;
            if (old && steps - r[old]->last > 1500) d = old; // fairness: a runnable thread is not kept waiting for ever
            else if (ns + nt && gv_rng() % 1024 < pspec) d = r.size() + gv_rng() % (ns + nt);
            else if (me->st != READY) d = gv_rng() % r.size();
            else if (r.size() > 1 && (sp || gv_rng() % 1024 < ppre)) d = 1 + gv_rng() % (r.size() - 1);
            c = gv_choice("s", d, tot);
        }
        if (c < r.size()) { Th* n = r[c]; n->st = RUN; n->last = steps; if (n == me) return; Th* self = me; wake(n); if (self->st != DONE) { park(self); } return; }
        if (c < r.size() + ns) { ++nspur; Th* t = spur[c - r.size()]; t->st = READY; t->timed = false; t->timedout = false; continue; }
        advance();
    }
}
void yield() { me->st = READY; schedule(); }
void spin_yield() { spin = true; me->st = READY; schedule(); }
void block(St s, void* o, bool timed = false, int64_t dl = 0) { me->st = s; me->obj = o; me->timed = timed; me->dl = dl; me->timedout = false; schedule(); me->timed = false; me->obj = nullptr; }
bool act() { return on && me; }
void ready_on(St s, void* o, int n) { for (auto t : T) if (n && t->st == s && t->obj == o) { t->st = READY; t->timed = false; --n; } }
int64_t ns(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
const int64_t REAL0 = 1700000000000000000ll;
int64_t mono(clockid_t c, int64_t abs) { return c == CLOCK_REALTIME ? abs - REAL0 : abs; }
template <typename F> F* real(const char* n) { return (F*)dlsym(RTLD_NEXT, n); }
void m_lock(void* m, bool rec) { while (mx.count(m) && mx[m].owner) { if (mx[m].owner == me && rec) { ++mx[m].cnt; return; } if (!me->since) me->since = steps; block(MUTEX, m); if (me->granted) { me->granted = false; me->since = 0; return; } } me->since = 0; mx[m] = {me, 1}; }
bool m_unlock(void* m) { auto it = mx.find(m); if (it == mx.end() || it->second.owner != me) gv_die("only a locked mutex of this thread is unlocked"); if (--it->second.cnt) return false; mx.erase(it); for (auto t : T) if (t->st == MUTEX && t->obj == m && steps - t->since > 1500) { mx[m] = {t, 1}; t->granted = true; t->st = READY; return true; } ready_on(MUTEX, m, 1 << 30); return true; }
bool isrec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
void* tramp(void* p)
{
    Th* t = (Th*)p; me = t; park(t);
    t->ret = t->fn(t->arg);
    t->st = DONE; for (auto q : T) if (q->st == JOIN && q->obj == t) q->st = READY;
    bool any = false; for (auto q : T) if (q->st != DONE) any = true;
    if (any) schedule();
    me = nullptr; return t->ret;
}
}
extern "C" {
void gv_stuck_label(const char* l) { stuck = l; }
void gv_sched_begin()
{
    T.clear(); mx.clear(); vnow = 1000000000000ll; steps = 0; nspur = 0; idle_only = no_spur = false;
    static const unsigned P[] = {0, 30, 100, 300, 500}, Q[] = {0, 0, 20, 100}; ppre = P[gv_rng() % 5]; pspec = Q[gv_rng() % 4];
    me = new Th{}; me->st = RUN; me->pt = pthread_self(); T.push_back(me); on = true;
}
void gv_sched_end()
{
    // threads left behind: let them run to their end; one that never ends is a violation
    if (gv_live_threads()) { gv_stuck_label("no thread outlives the object that started it"); while (gv_live_threads()) { if (steps > 150000) gv_die("no thread outlives the object that started it"); block(SLEEP, nullptr, true, vnow); } }
    on = false; for (auto t : T) { if (t != me && !t->joined) real<int(pthread_t, void**)>("pthread_join")(t->pt, nullptr); delete t; } T.clear(); me = nullptr;
}
int64_t gv_now_ns() { return vnow; }
int gv_live_threads() { int n = 0; for (auto t : T) n += t != me && t->st != DONE; return n; }
void gv_yield() { if (act()) spin_yield(); }
void gv_time_only_idle(bool b) { idle_only = b; }
void gv_no_spurious(bool b) { no_spur = b; }
int gv_mutexes_held() { int n = 0; for (auto& m : mx) n += m.second.owner == me; return n; }
int gv_steps() { return steps; }
// lets every other thread run until all of them sleep (time does not pass)
void gv_settle() { if (act()) { const bool b = idle_only; idle_only = true; for (;;) { bool busy = false; for (auto t : T) busy |= t != me && (t->st == READY); if (!busy) break; block(SLEEP, nullptr, true, vnow); } idle_only = b; } }

int pthread_mutex_lock(pthread_mutex_t* m) { if (!act()) { static auto f = real<int(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } yield(); m_lock(m, isrec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!act()) { static auto f = real<int(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); } yield(); if (mx.count(m)) { if (mx[m].owner == me && isrec(m)) { ++mx[m].cnt; return 0; } return EBUSY; } mx[m] = {me, 1}; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!act()) { static auto f = real<int(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } m_unlock(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!act()) { static auto f = real<int(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); } yield(); m_lock(m, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!act()) { static auto f = real<int(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); } yield(); m_lock(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!act()) { static auto f = real<int(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); } m_unlock(m); return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t dl)
{
    yield();
    if (timed && dl <= vnow) { m_unlock(m); yield(); m_lock(m, false); return ETIMEDOUT; }
    m_unlock(m); block(CV, c, timed, dl); const bool to = me->timedout; m_lock(m, false); return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!act()) { static auto f = real<int(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!act()) { static auto f = real<int(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return f(c, m, t); } return cwait(c, m, true, mono(CLOCK_REALTIME, ns(t))); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!act()) { static auto f = real<int(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, k, t); } return cwait(c, m, true, mono(k, ns(t))); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!act()) { static auto f = real<int(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
    yield(); std::vector<Th*> w; for (auto t : T) if (t->st == CV && t->obj == c) w.push_back(t);
    if (!w.empty()) { Th* t = w[w.size() > 1 ? gv_choice("w", gv_rng() % w.size(), w.size()) : 0]; t->st = READY; t->timed = false; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) { if (!act()) { static auto f = real<int(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } yield(); ready_on(CV, c, 1 << 30); return 0; }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto f = real<int(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!act()) return f(p, a, fn, arg);
    Th* t = new Th{}; t->id = T.size(); t->fn = fn; t->arg = arg; t->st = READY; t->last = steps;
    const int r = f(&t->pt, a, tramp, t); if (r) { delete t; return r; }
    *p = t->pt; T.push_back(t); yield(); return 0;
}
int pthread_join(pthread_t p, void** r)
{
    static auto f = real<int(pthread_t, void**)>("pthread_join");
    if (act()) { Th* t = nullptr; for (auto q : T) if (q != me && !q->joined && pthread_equal(q->pt, p)) t = q; if (t) { yield(); while (t->st != DONE) block(JOIN, t); t->joined = true; } }
    return f(p, r);
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    static auto f = real<int(pthread_once_t*, void (*)())>("pthread_once");
    if (!act()) return f(o, fn);
    while (*o == 1) { block(FUT, o, false, 0); }
    if (*o == 0) { *o = 1; try { fn(); } catch (...) { *o = 0; ready_on(FUT, o, 1 << 30); throw; } *o = 2; ready_on(FUT, o, 1 << 30); }
    return 0;
}
int clock_gettime(clockid_t c, timespec* t) noexcept
{
    if (!act()) return raw(SYS_clock_gettime, c, (long)t);
    const int64_t v = vnow + (c == CLOCK_REALTIME ? REAL0 : 0); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(timeval* t, void*) noexcept { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec* rem)
{
    if (!act()) return -raw(SYS_clock_nanosleep, c, fl, (long)t, (long)rem);
    const int64_t dl = (fl & TIMER_ABSTIME) ? mono(c, ns(t)) : vnow + ns(t); if (dl > vnow) block(SLEEP, nullptr, true, dl); else yield(); return 0;
}
int nanosleep(const timespec* t, timespec* rem) { if (!act()) { const long r = raw(SYS_nanosleep, (long)t, (long)rem); if (r < 0) { errno = -r; return -1; } return 0; } return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() noexcept { if (!act()) return raw(SYS_sched_yield); spin_yield(); return 0; }
long syscall(long n, ...) noexcept
{
    va_list v; va_start(v, n); long a[6]; for (auto& x : a) x = va_arg(v, long); va_end(v);
    if (n == SYS_futex && act())
    {
        const int op = a[1] & 127; int* addr = (int*)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            yield();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            const timespec* t = (const timespec*)a[3]; int64_t dl = 0;
            if (t) dl = op == FUTEX_WAIT ? vnow + ns(t) : mono((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ns(t));
            block(FUT, addr, t != nullptr, dl); if (me->timedout) { errno = ETIMEDOUT; return -1; } return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { yield(); ready_on(FUT, addr, (int)a[2]); return 0; }
    }
    const long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
}

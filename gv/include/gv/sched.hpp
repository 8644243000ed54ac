// Deterministic scheduling of the real code (native builds only): threads, mutexes, condition variables, futexes and the clocks are
// interposed at the libc boundary; exactly one thread runs at a time and every switch, spurious wakeup and early passage of time is a
// recorded choice, so a failing schedule replays.
#pragma once
#include <cstdint>
extern "C" {
void gv_sched_begin(); void gv_sched_end(); int64_t gv_now_ns(); int gv_live_threads(); void gv_yield(); void gv_time_only_idle(bool); void gv_no_spurious(bool);
void gv_stuck_label(const char*); int gv_mutexes_held(); void gv_settle(); int gv_steps();
}
namespace gv
{
// runs f with every thread it starts under the scheduler
template <typename F> void schedule(const char* stuck_label, F&& f)
{
    gv_stuck_label(stuck_label); gv_sched_begin();
    try { f(); } catch (...) { gv_sched_end(); throw; }
    gv_sched_end();
}
}

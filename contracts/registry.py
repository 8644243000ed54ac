"""Which contract units decide which property, with what settings."""
TRUST_CORE = ["gv (this repository's verification-condition generator over LLVM IR: memory model, instruction semantics, exception tables)",
              "clang-18 -O0 front end (the shipped library is built with g++-13)", "z3 5.3.2, cvc5"]
RI = dict(arith='int', fp='real')
RFP = "double arithmetic treated as exact real arithmetic (no rounding, no overflow) in the contracts marked fp=real"
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def civil(c):
    "the assumed contract of year_month_day is checked against the real library on its whole domain"
    exe = os.path.join(c.dir, 'civil')
    r = subprocess.run(['g++', '-std=c++20', '-O2', os.path.join(ROOT, 'contracts/civil_check.cpp'), '-o', exe], capture_output=True, text=True)
    r = subprocess.run([exe], capture_output=True, text=True, timeout=100) if not r.returncode else r
    c.notes.append('year_month_day assumed contract validated exhaustively: ' + r.stdout.strip()[-200:])
    if r.returncode: raise RuntimeError('assumed contract of year_month_day does not hold: ' + r.stdout + r.stderr)
DT = dict(tus=['datetime.cpp', 'datetime_text.cpp'], cfg=dict(arith='int', models=['ymd']), ir_flags=['-D_GLIBCXX_EXTERN_TEMPLATE=0'], native_flags=['-O0'], extra=[civil])
A_YMD = "assumed contract: std::chrono::year_month_day <-> day count is a monotone bijection (validated exhaustively on every run by contracts/civil_check.cpp)"
A_SS = "assumed contract: std::stringstream output with setw/setfill (contracts/stubs/sstream.hpp)"
A_CLK = "std::chrono::system_clock::now replaced by an arbitrary instant"
STR = dict(ir_flags=['-D_GLIBCXX_EXTERN_TEMPLATE=0'])
A_MT = "std::mt19937::operator() replaced by an arbitrary 32-bit word per draw"
PROPS = {
 'C13': dict(STR, tus=['c_uuid.cpp'], assumptions=["is_valid/from_string on arbitrary texts: proved for every well-formed text and every replacement of a character; other texts by native search against the grammar (bounded: C13_any_string)"]),
 'C14': dict(STR, tus=['c_uuid.cpp'], assumptions=[A_MT]),
 'C15': dict(STR, tus=['c_uuid.cpp'], assumptions=["order of texts: by the byte-order proof and the two-digit lemma C15_text_order; whole texts compared natively"]),
 'C16': dict(DT, assumptions=[A_SS, "total duration within int64 nanoseconds and, for + - * /, results representable"], title='timedelta'),
 'C17': dict(DT, assumptions=[A_CLK, "instants within int64 nanoseconds"]),
 'C18': dict(DT, per={'C18_validity': dict(arith='bv', models=[])}, assumptions=[A_YMD, A_CLK, "dates within 1677-09-22..2262-04-10 for arithmetic (the int64 nanosecond range)"]),
 'C19': dict(DT, assumptions=[A_YMD, A_CLK, "instants within int64 nanoseconds"]),
 'C30': dict(DT, tus=['datetime_text.cpp'], assumptions=["assumed contract: date.h format/parse round-trip (contracts/stubs/date_h.hpp), exercised natively with the real date.h", A_YMD, "malformed texts: which texts match is date.h's own decision; natively compared against it (bounded)"]),
 'C20': dict(tus=['geometry.cpp'], per={'C20_map': RI, 'C20_lenght_int': {}}, assumptions=[RFP + ": C20_map", "instances verified: range<int>, range<double>; NaN bounds excluded"], title='range'),
 'C21': dict(tus=['geometry.cpp'], cfg=dict(arith='int'), per={'C21_center': RI, 'C21_intersects_line': dict(RI, feas=300)}, assumptions=[RFP + ": C21_center, C21_intersects_line", "rectangle<int> with coordinates and extents of magnitude at most 2^29 (no int overflow)", "intersects(line): coordinates of magnitude at most 2^24"]),
 'C22': dict(tus=['geometry.cpp'], per={'C22_point_scale_double': RI, 'C22_point_scale_mixed': RI, 'C22_distance_*': RI, 'C22_minmax_double': RI}, assumptions=[RFP + ": scaling, distance, min/max of doubles", "point<int> components within +-2^30"]),
 'C23': dict(tus=['geometry.cpp'], per={'C23_*': RI, 'C23_intersection': dict(RI, feas=300, weight=9)}, assumptions=[RFP + ": all of C23", "coordinates of magnitude at most 2^24"]),
}
CONC = dict(cfg=dict(arith='int', cover=True, ghost=True), ir_flags=['-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], native_ok=True, native_secs=6)
A_MON = "thread-modular (monitor) reasoning: between the critical sections of an operation the shared state may be replaced by any state satisfying the monitor invariant; std::mutex, std::condition_variable and std::thread primitives behave as the standard says (contracts/stubs/conc.hpp)"
A_FIFO = "assumed contract: std::queue as the items numbered [head, tail) in order"
PROPS.update({
 'C01': dict(CONC, tus=['c_queue.cpp'], sched=['c_queue.cpp'], assumptions=[A_MON, A_FIFO, "verified for a copyable, movable item type; items taken in push order by induction over the critical sections"]),
 'C02': dict(CONC, tus=['c_queue.cpp'], sched=['c_queue.cpp'], assumptions=[A_MON, A_FIFO, "a notified or awake thread is eventually scheduled"]),
})
POOL = dict(CONC, tus=['c_pool.cpp'], sched=['c_pool.cpp'], per={'C05_exit*': dict(cover=False, budget=40)})
A_POOL = ["assumed contract: std::vector<std::thread> by its size and the range of joined threads, std::latch by its arrivals (contracts/stubs/threads.hpp); std::call_once runs its function once",
          "at most 2^20 hardware threads; thread creation does not fail; all atomics are sequentially consistent"]
PROPS.update({
 'C03': dict(POOL, assumptions=[A_MON, A_FIFO] + A_POOL + ["run verified for a by-value, a void and a throwing callable (template instances)"]),
 'C04': dict(POOL, assumptions=[A_MON, A_FIFO] + A_POOL),
 'C05': dict(POOL, assumptions=[A_MON, A_FIFO, "a notified or awake thread is eventually scheduled"] + A_POOL),
})
SCHED = dict(CONC, tus=['c_sched.cpp'], sched=['c_sched.cpp'], ir_flags=CONC['ir_flags'] + ['-I' + ROOT + '/contracts/stubs/over'], per={'*_thread*': dict(weight=50, budget=330), 'C10_exit*': dict(budget=40)})
A_SCHED = [A_MON, "thread_pool by its own contract (proved in C03-C05): run takes the task, stop drains it", "assumed contract: std::multimap by a witness entry and the multitude of the others (contracts/stubs/mapw.hpp)",
           "std::hash of the task ids in use is injective (documented use of the library: ids are compared by hash)", "the clock is monotone; instants and due times within 2^60 ns, delays within 2^59, intervals in 1..2^58 ns"]
PROPS.update({
 'C08': dict(SCHED, assumptions=A_SCHED + ["a notified or awake thread is eventually scheduled"]),
 'C09': dict(SCHED, assumptions=A_SCHED),
 'C10': dict(SCHED, assumptions=A_SCHED + ["a notified or awake thread is eventually scheduled"]),
})
TIMER = dict(CONC, tus=['c_timer.cpp'], sched=['c_timer.cpp'])
A_TIMER = ["the clock is monotone; instants within 2^60 ns, intervals in 1..2^58 ns", "std::call_once runs its function once; a future is ready once its promise is set"]
PROPS.update({
 'C11': dict(TIMER, assumptions=[A_MON] + A_TIMER + ["start, stop and set_callback are called by one controlling thread, not by the callback", "a notified or awake thread is eventually scheduled"]),
 'C12': dict(TIMER, assumptions=[A_MON, "verified for a copyable value type with == (template instance)", "the callback does not use the observable it was called by"]),
 'C27': dict(TIMER, per={'C27_rate_*': dict(fp='real')}, assumptions=[A_TIMER[0], RFP + ": rate_limiter", "rate in 1..10^9; sleep_for lasts at least as long as asked; sync may return up to 2 ns early (truncation of the sleep to whole nanoseconds)"]),
})
PROPS['C26'] = dict(tus=['c_service.cpp'], cfg=dict(arith='int', cover=True, ghost=True), ir_flags=['-O1', '-Xclang', '-disable-llvm-passes', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], native_ok=True, native_secs=6, sched=['c_service.cpp'], assumptions=["assumed contract: std::unordered_map by the entry of a witness key and arbitrary others (contracts/stubs/umapw.hpp)", "type_info::hash_code is injective on the interfaces in use", "verified for a plain interface, first, second, later and virtual bases and an interface derived from another (template instances)", "one thread at a time uses the locator (the library documents no thread safety for it)"])
EVENT = dict(CONC, tus=['c_event.cpp'], sched=['c_event.cpp'], ir_flags=CONC['ir_flags'] + ['-I' + ROOT + '/contracts/stubs/over'], per={'C07_remove_other*': dict(weight=50)})
A_EVENT = [A_MON, "thread_pool by its own contract (proved in C03-C05): run takes the task and invokes it once", "assumed contract: std::map and the handlers' std::vector by a witness handler and arbitrary others (contracts/stubs/eventmap.hpp)",
           "event names of length 0, 2 and 17 with arbitrary characters stand for all names; the witness takes one int, calls and registrations with several other argument lists (template instances)", "fewer than 2^60 handlers are registered in a dispatcher's life"]
PROPS.update({ 'C06': dict(EVENT, assumptions=A_EVENT), 'C07': dict(EVENT, assumptions=A_EVENT) })
for ids, tu in (('C01 C02', 'c_queue.cpp'), ('C03 C04 C05', 'c_pool.cpp'), ('C06 C07', 'c_event.cpp'), ('C08 C09 C10', 'c_sched.cpp'), ('C28', 'c_signal.cpp')):
    for i in ids.split(): PROPS.setdefault(i, dict(tus=[tu], sched=[tu], native_ok=True, native_secs=8, level='exploration'))
for i, tu in (('C24', 'c_args.cpp'), ('C25', 'c_args.cpp')): PROPS.setdefault(i, dict(tus=[tu], native_ok=True, native_secs=8, level='exploration'))
from gv.races import races, keep
OVER = ['-I' + ROOT + '/contracts/stubs/over']
PROPS['C29'] = dict(CONC, tus=['c_queue.cpp', 'c_pool.cpp', 'c_timer.cpp', 'c_event.cpp', 'c_sched.cpp'], tu_flags={'c_event.cpp': OVER, 'c_sched.cpp': OVER}, native=False, keep=keep, extra=[races],
    per={'C29_sched_thread': dict(weight=50, budget=330), 'C29_event_remove*': dict(weight=20)},
    technique='lockset proof: each operation verified for all inputs and states, its accesses recorded with the mutexes held on every path',
    assumptions=[A_MON, "accesses are to the bytes of the object itself and to the containers in it (contracts/stubs); what they own on the heap is reached through them", "start, stop, set_callback and destruction of one object are called by one thread at a time; no other thread uses an object while it is destroyed",
                 "when stop returns no thread of the object exists (proved: C04, C10, C11)", "std::atomic and const members do not race", "an access is recorded for each path the verifier explores; a path it cannot follow leaves the operation without verdict"])
NOT_APPLICABLE = {}

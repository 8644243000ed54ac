#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)
I = "sdk/include/teiacare/sdk/"
S = "sdk/src/"

prop("C01", "blocking_queue is a linearizable bounded FIFO",
 "Every item pushed into a blocking_queue is popped exactly once, in push order and with the value pushed, and size() never exceeds capacity() (the constructor argument, at least 1). try_push fails, leaving the queue unchanged, exactly when the queue is full at that instant, and try_pop returns nullopt exactly when it is empty; push and pop return only after having added or removed exactly one item.",
 ["inputs", "schedules", "histories"], "all capacities, item values, histories of push/try_push/pop/try_pop/size and interleavings of any number of threads",
 "The unit tests run a handful of fixed histories with one or two threads; order and capacity must survive every interleaving.",
 [I+"blocking_queue.hpp"],
 [("push/try_push/pop/try_pop under one mutex", I+"blocking_queue.hpp:push"), ("is_full/is_empty predicates", I+"blocking_queue.hpp:is_full")],
 [("_queue", "the items, oldest first", I+"blocking_queue.hpp"), ("_capacity", "bound on the number of items", I+"blocking_queue.hpp")])
prop("C02", "blocking_queue never strands a blocked producer or consumer",
 "A thread blocked in pop() is woken once an item is available to it, and a thread blocked in push() is woken once there is room for it: no push or pop (blocking or try_) may make an operation possible and leave a thread that waits for it asleep. The queue never blocks a thread whose operation is possible.",
 ["schedules", "histories"], "all schedules of any number of producers and consumers on a queue of any capacity",
 "A lost wakeup needs several waiters and one particular interleaving; tests with one waiter pass without the notification rule.",
 [I+"blocking_queue.hpp"],
 [("notify_all on the empty->non-empty and full->non-full transitions", I+"blocking_queue.hpp:push_impl"), ("waits re-check their predicate under the mutex", I+"blocking_queue.hpp:pop")])
prop("C03", "thread_pool runs every accepted task exactly once and delivers its outcome",
 "While the pool stays running, every callable passed to thread_pool::run is invoked exactly once, with copies of the arguments given, and tasks are started in the order in which they were submitted. The returned future yields exactly the callable's return value, or the exception it threw, and a throwing task neither kills the worker nor disturbs other tasks.",
 ["inputs", "schedules", "histories"], "all callables, argument values and outcomes (return or throw), all submission histories and worker interleavings",
 "Tests run fixed batches and cannot enumerate interleavings of dequeue, invoke and enqueue, nor exceptions at every point.",
 [I+"thread_pool.hpp", S+"thread_pool.cpp", I+"task.hpp"],
 [("packaged_task + bind in run", I+"thread_pool.hpp:run"), ("enqueue under the task mutex", S+"thread_pool.cpp:enqueue_task"), ("worker dequeues under the mutex and invokes outside it", S+"thread_pool.cpp:worker"), ("type-erased task", I+"task.hpp")],
 [("_task_queue", "tasks not yet started, oldest first", I+"thread_pool.hpp")])
prop("C04", "thread_pool start/stop lifecycle",
 "start(n) returns true exactly when the pool was stopped and then runs clamp(n, 1, hardware_concurrency) workers, all alive when it returns; stop() returns true exactly when the pool was running. When stop() (or the destructor) returns every worker has been joined, tasks not yet started have been discarded, threads_count() is 0 and is_running() is false, and the pool can be started again.",
 ["inputs", "histories", "schedules"], "all thread counts, all start/stop/run histories, all worker interleavings",
 "Tests try a few thread counts and one restart; clamping, double start/stop and the joining of every worker have to hold for all of them.",
 [S+"thread_pool.cpp", I+"thread_pool.hpp"],
 [("running flag under its own mutex", S+"thread_pool.cpp:start"), ("clamp", S+"thread_pool.cpp:start"), ("clear queue, notify, join, clear threads", S+"thread_pool.cpp:stop")])
prop("C05", "thread_pool workers never sleep through work or through stop",
 "A submitted task never stays queued while a worker of a running pool sleeps forever, and stop() always terminates once the running tasks return: every enqueue wakes a sleeping worker and stop wakes all of them, in every interleaving. No mutex of the pool is held while a task runs.",
 ["schedules"], "all interleavings of run, stop and the workers' wait loops",
 "Lost wakeups need the store/notify to fall between a worker's predicate check and its sleep, which a test does not control.",
 [S+"thread_pool.cpp"],
 [("wait with predicate under the task mutex", S+"thread_pool.cpp:worker"), ("notify_one per enqueued task", S+"thread_pool.cpp:enqueue_task"), ("mutex section between clearing the flag and notify_all", S+"thread_pool.cpp:stop")])
prop("C06", "emit reaches exactly the handlers registered for that event and argument types",
 "emit(name, args...) schedules exactly one call of every handler currently registered under exactly that event name and exactly that argument type list, and of no other handler, each called with the emitted argument values. It returns true exactly when at least one such handler is registered.",
 ["inputs", "histories", "schedules"], "all event names, argument type lists and values, and all histories of add/remove/emit from any thread",
 "Tests use a few well-separated names and types; colliding names, permuted argument types and several handlers per event are not sampled.",
 [I+"event_dispatcher.hpp", S+"event_dispatcher.cpp"],
 [("event key built from name and argument types", I+"event_dispatcher.hpp:get_event_handler_id"), ("handler list copied under the mutex and each handler handed to the pool", I+"event_dispatcher.hpp:emit")],
 [("_handlers", "event key -> handlers", I+"event_dispatcher.hpp")])
prop("C07", "event handler ids are unique and removal removes exactly what was named",
 "add_handler returns an id different from every other id of a live handler of that dispatcher. remove_handler(id) removes the handler with that id and no other and returns true, or changes nothing and returns false if there is none; remove_event(name) removes exactly the handlers registered under that event name (for all argument types), and returns true exactly when there was one.",
 ["inputs", "histories"], "all ids, event names and histories of add/remove on any number of dispatchers",
 "Tests never have event names that are prefixes of each other, more than one live dispatcher, or handlers of several events when removing one.",
 [S+"event_dispatcher.cpp", I+"event_dispatcher.hpp"],
 [("id counter", I+"event_dispatcher.hpp:add_handler"), ("erase_if on id / on name", S+"event_dispatcher.cpp:remove_handler")])
prop("C08", "task_scheduler honours due times, intervals and the enabled flag",
 "A scheduled task is never handed to the workers before its due time; when the scheduler processes due tasks, every enabled due one-shot or periodic task is submitted exactly once and a disabled one is not. A one-shot task is then forgotten, a periodic task (interval > 0) is rescheduled at the first point of its grid first_due + k*interval that is not in the past, and tasks not yet due are left untouched.",
 ["inputs", "histories", "schedules"], "all due times, positive intervals, clock readings, task sets and enabled flags",
 "Tests use wall-clock sleeps with one or two tasks; ties, overdue grids, many simultaneous due tasks and late wakeups are not reached.",
 [S+"task_scheduler.cpp", I+"task_scheduler.hpp"],
 [("due tasks = upper_bound(now)", S+"task_scheduler.cpp:update_tasks"), ("rescheduling loop", S+"task_scheduler.cpp:update_tasks"), ("wait_until the first due time", S+"task_scheduler.cpp:start")],
 [("_tasks", "due time -> task", I+"task_scheduler.hpp")])
prop("C09", "task_scheduler id bookkeeping is exact",
 "At most one task with a given id is pending: scheduling a second one fails (false/nullopt) and changes nothing. is_scheduled, is_enabled, get_interval, set_enabled, update_interval and remove_task act on and answer for exactly the pending task with that id, leave all other tasks untouched, and report false/nullopt when there is none.",
 ["inputs", "histories"], "all ids, intervals and histories of the management calls",
 "Tests use one or two tasks, so an operation that touches the wrong task, all tasks or anonymous tasks is not noticed.",
 [S+"task_scheduler.cpp", I+"task_scheduler.hpp"],
 [("lookup by id hash under the mutex", S+"task_scheduler.cpp:get_task_iterator"), ("duplicate check and insertion in one critical section", S+"task_scheduler.cpp:add_task")])
prop("C10", "task_scheduler never misses a wakeup and stop always terminates",
 "A task added (or re-timed) to fall due earlier than what the scheduler thread is sleeping for makes it re-evaluate its sleep, in every interleaving. stop() and the destructor always terminate once running tasks return, leaving no pending task and no scheduler thread.",
 ["schedules"], "all interleavings of the scheduler thread with add, update_interval and stop",
 "The window between the scheduler thread's check and its sleep is a few instructions wide; no test can hit it on purpose.",
 [S+"task_scheduler.cpp"],
 [("insert under the mutex, then notify", S+"task_scheduler.cpp:add_task"), ("stop: flag, mutex section, notify_all, join", S+"task_scheduler.cpp:stop"), ("wait/wait_until", S+"task_scheduler.cpp:start")])
prop("C11", "high_precision_timer grid and counters",
 "With a callback set and interval > 0, the k-th invocation never happens before start + k*interval, successive due times stay on the grid start + k*interval, and grid points that had passed when an invocation completed are skipped and each counted once by missed_callback_count(), while invoked_callback_count() counts the completed invocations. start() without a callback returns false and starts nothing, start() resets both counters, and stop() always terminates, after which the callback is not invoked.",
 ["inputs", "schedules", "histories"], "all positive intervals, callback durations, clock readings and start/stop interleavings",
 "Tests sleep and compare counts with tolerance; exact ties of the clock with the grid and long overruns are not controlled.",
 [S+"high_precision_timer.cpp", I+"high_precision_timer.hpp"],
 [("wait_until next grid point", S+"high_precision_timer.cpp:worker"), ("advance loop and missed counter", S+"high_precision_timer.cpp:update_next_start_time"), ("flag under mutex + notify + join", S+"high_precision_timer.cpp:stop")])
prop("C12", "observable invokes its callback exactly on enabled changes",
 "Assigning a value to an observable makes value() return it, and invokes the callback exactly once, with the new value, exactly when the new value differs from the old one and the callback is enabled; in every other case the callback is not invoked. Toggling callback_enabled never changes the value and construction never invokes the callback.",
 ["inputs", "histories", "schedules"], "all values, all histories of assignments and enable/disable, from any threads",
 "Tests use a few integer assignments; the equivalence has to hold for every pair of values and every enable history.",
 [I+"observable.hpp"],
 [("compare, store, notify under one mutex", I+"observable.hpp:set")])
prop("C13", "uuid text form round-trips and validation agrees with parsing",
 "For every uuid u, to_string() is the 36-character lowercase 8-4-4-4-12 hexadecimal text of its 16 bytes, and from_string of that text (also in uppercase, in braces or without dashes) yields u again. For every string s, is_valid(s) is true exactly when from_string(s) does not throw, which is exactly when s has 32 hexadecimal digits once dashes and one matching pair of braces are removed.",
 ["inputs"], "all 2^128 uuids and all strings",
 "Tests use a dozen literal strings.",
 [S+"uuid.cpp", S+"uuid_generator.cpp"],
 [("formatting loop", S+"uuid.cpp:to_string"), ("parser", S+"uuid_generator.cpp:from_string"), ("validator", S+"uuid_generator.cpp:is_valid")])
prop("C14", "create() yields RFC 4122 version 4 uuids that keep all other random bits",
 "Every uuid returned by uuid_generator::create() has version nibble 4 and variant bits 10, whatever the random engine produces, and its other 122 bits are exactly the bits drawn from the random source, each draw used once.",
 ["inputs"], "all outputs of the random engine",
 "Tests sample random draws; a bit that is wrong for some draws, or constant, is invisible.",
 [S+"uuid_generator.cpp"], [("masking of bytes 6 and 8", S+"uuid_generator.cpp:create")])
prop("C15", "uuid comparison is a total order consistent with equality and with the text form",
 "For all uuids a and b exactly one of a<b, a==b, a>b holds, <, <=, >, >= and != agree with it, == holds exactly when all 16 bytes are equal, and the order is transitive and equals the lexicographic order of the to_string() texts. A default constructed uuid is all zero.",
 ["inputs"], "all pairs and triples of uuids", "Tests compare a few literals.",
 [I+"uuid.hpp"], [("comparison operators", I+"uuid.hpp")])
prop("C16", "timedelta decomposition, arithmetic and text are exact",
 "For every timedelta, hours+minutes+seconds+milliseconds+microseconds+nanoseconds equals the duration with every component below hours in its natural range, and the total_* values are the duration truncated toward zero to that unit. +, -, * and / act on the exact nanosecond count (division truncates and by zero throws std::domain_error), == and is_null compare exact nanoseconds, and to_string prints [-]HH:MM:SS with the zero-padded fraction of the chosen precision.",
 ["inputs"], "all 64-bit nanosecond counts whose result is representable",
 "Tests use a few positive literals.",
 [I+"datetime/timedelta.hpp", S+"datetime/timedelta.cpp"],
 [("floor differences", I+"datetime/timedelta.hpp:minutes"), ("operators", I+"datetime/timedelta.hpp"), ("formatting", S+"datetime/timedelta.cpp:to_string")])
prop("C17", "time of day arithmetic wraps at 24 hours and keeps every nanosecond",
 "A time built from any sum of durations equals that sum modulo 24 hours, keeping its sign; hours, minutes, seconds and sub-second components recombine to it exactly. Adding or subtracting a timedelta wraps modulo 24 hours, time - time and time + time are the exact timedelta, <, > and == order by the duration, and a default constructed time is invalid while every constructed one is valid.",
 ["inputs"], "all durations representable in 64-bit nanoseconds",
 "Tests use a few literal times.",
 [I+"datetime/time.hpp"], [("modulo in the constructor", I+"datetime/time.hpp:time"), ("hh_mm_ss", I+"datetime/time.hpp")])
prop("C18", "date arithmetic and ordering follow the civil calendar",
 "For every valid date, adding or subtracting n whole days moves it exactly n calendar days (subtracting a positive fraction of a day lands on the previous day), date - date is the exact number of days, and d + (e - d) == e. Order, equality, weekday and to_timepoint agree with the proleptic Gregorian calendar, and is_valid holds exactly for existing dates.",
 ["inputs"], "all valid dates and day counts with results in the representable range (time points within 64-bit nanoseconds where the operation goes through nanoseconds)",
 "Tests use a few dates around 2024.",
 [I+"datetime/date.hpp", S+"datetime/date.cpp"], [("sys_days conversions", I+"datetime/date.hpp")])
prop("C19", "datetime splits, recombines and orders exactly",
 "For every representable instant, datetime(dt.date(), dt.time()) == dt, with 0 <= time < 24h also before 1970; (dt + td) - dt == td and (dt + td) - td == dt, and the component constructor equals the sum of its parts. Equality and order are those of the nanosecond time points, and is_valid holds for all but the two extreme time points.",
 ["inputs"], "all 64-bit nanosecond instants and timedeltas whose sum is representable",
 "The datetime suite samples a few recent instants (and is not even in the stable set).",
 [I+"datetime/datetime.hpp"], [("floor<days> split", I+"datetime/datetime.hpp:date"), ("operators", I+"datetime/datetime.hpp")])
prop("C20", "range algebra",
 "For every range with min <= max: contains(v) holds exactly for min <= v < max, contains(range) exactly for both bounds inside, intersects is symmetric and true exactly when each range starts strictly before the other ends, get_intersection contains exactly the values in both ranges (the default range if they do not intersect), and get_union is the smallest range containing both. clamp(v) is the value of [min,max] nearest to v, set_min/set_max install the given bound and keep min <= max, and lenght, is_null, == and map follow min and max exactly.",
 ["inputs"], "all bounds and values of int and of (non-NaN) double",
 "Tests use a few literal ranges.",
 [I+"geometry/range.hpp", I+"math.hpp"], [("predicates", I+"geometry/range.hpp"), ("min/max", I+"math.hpp")])
prop("C21", "rectangle algebra",
 "For every rectangle with non-negative size (no overflow): corners, size, area and center follow position and size; contains(point) holds exactly for strictly interior points and contains(rectangle) implies that all of its interior is inside; intersects(rectangle) is symmetric and true exactly when each starts strictly before the other ends on both axes and neither is null, and intersects(line) exactly when an end point is strictly inside or the segment meets an edge. get_intersection contains exactly the interior points of both, get_union is the smallest rectangle containing both (the other one if one is null), and translate/translated move the position by exactly the delta and keep the size.",
 ["inputs"], "all int rectangles with coordinates and sizes up to 2^29, and all points",
 "Tests use a few literal rectangles; asymmetries and boundary cases are not sampled and translated() is never instantiated.",
 [I+"geometry/rectangle.hpp", I+"math.hpp"], [("predicates and constructors", I+"geometry/rectangle.hpp")])
prop("C22", "point, size and min/max algebra",
 "point +,-,+=,-=,*,/,add_delta,sub_delta,set_x/set_y and size setters act componentwise and exactly, the compound and binary forms agree, and ==, is_origin and is_null compare all components. distance and distance_from_origin are Euclidean (truncated for int), and tc::sdk::min and max of 2, 3 or 4 values return a value that is one of the arguments and a bound of all of them.",
 ["inputs"], "all int and double component values without overflow or NaN",
 "Tests use a few literal values and argument orders.",
 [I+"geometry/point.hpp", I+"geometry/size.hpp", I+"math.hpp"], [("operators", I+"geometry/point.hpp"), ("min/max", I+"math.hpp")])
prop("C23", "line segment intersection",
 "For non-parallel segments, get_intersection returns a point exactly when the two closed segments meet, and that point lies on both; intersects agrees with it and parallel segments never intersect. Equality of lines ignores direction, and is_null, is_vertical and is_horizontal compare the end points' coordinates.",
 ["inputs"], "all int segments with coordinates up to 2^24",
 "Tests use a few literal segments; the sign and boundary cases of both parameters are not sampled.",
 [I+"geometry/line.hpp"], [("parametric intersection", I+"geometry/line.hpp:get_intersection")])
prop("C24", "argument_parser assigns every token to exactly the argument it names",
 "Parsing a command line assigns to each registered argument exactly the value its tokens give: --name=v, -n=v, --name v and -n v set the option named by its long or short name, --flag/-f sets that flag and nothing else, and the remaining tokens go to the positionals in order. help and version stop with quit, unknown options, surplus positionals, a missing value and a malformed token give error, and arguments not mentioned keep their default value.",
 ["inputs", "configurations"], "all command lines and all sets of registered arguments",
 "Tests use a few hundred literal command lines; the mapping has to hold for every token sequence and registration.",
 [S+"argparse/argument_parser.cpp", I+"argparse/argument_parser.hpp", I+"argparse/optional_argument.hpp", I+"argparse/flag_argument.hpp", I+"argparse/positional_argument.hpp"],
 [("token loop", S+"argparse/argument_parser.cpp:parse"), ("lookup", S+"argparse/argument_parser.cpp:find_argument"), ("key=value split", S+"argparse/argument_parser.cpp:split_key_value")])
prop("C25", "argument_parser reports every error as parse_result::error",
 "parse returns success only if every required option and every positional received a value (from the command line or its environment variable) and every value converted and passed its validator; otherwise it returns error and never lets an exception escape or the process terminate. A value that fails conversion or validation is not stored, an environment variable supplies the value only when set, and the command line overrides it.",
 ["inputs", "configurations"], "all command lines, environment values, registrations and validators",
 "Tests cover a few conversions and no failing environment value.",
 [S+"argparse/argument_parser.cpp", I+"argparse/argument_base.hpp", I+"argparse/optional_argument.hpp"],
 [("conversion", I+"argparse/argument_base.hpp:convert"), ("environment", I+"argparse/argument_base.hpp:parse_from_env"), ("required check", S+"argparse/argument_parser.cpp:check_parsed_arguments")])
prop("C26", "service_locator maps each interface to the instance registered for it",
 "Registering a service for an interface succeeds exactly when none is registered for it, and a failed registration changes nothing. get<I>() returns a usable pointer to exactly the instance registered for I, or null if there is none; unregister<I>() returns true and removes it exactly when one is registered, and no operation on I affects any other interface.",
 ["inputs", "histories"], "all histories of register/unregister/get over any interfaces and implementations, including multiple inheritance",
 "Tests register one or two simple services; implementations whose interface is not the first base and cross-interface effects are not sampled.",
 [I+"service_locator.hpp", S+"service_locator.cpp"], [("map keyed by type", I+"service_locator.hpp:register_service"), ("static cast in get", I+"service_locator.hpp:get")])
prop("C27", "stopwatch and rate_limiter measure from the right instant",
 "stopwatch: elapsed() is exactly the clock reading minus the last start (construction or reset()), truncated to the requested unit, and start_time() is that start. rate_limiter(rate): the n-th sync() does not return before construction + n/rate seconds, whatever delays occur between calls, and lateness does not shift later due times.",
 ["inputs", "histories", "schedules"], "all clock readings, rates >= 1 and call histories",
 "Tests measure a few real sleeps with tolerance.",
 [I+"stopwatch.hpp", I+"rate_limiter.hpp", S+"rate_limiter.cpp"], [("start time", I+"stopwatch.hpp"), ("accumulated deadline", S+"rate_limiter.cpp:sync")])
prop("C28", "signal handling delivers signal, name and release exactly once",
 "After install_signal_handlers(cb), delivery of SIGINT, SIGTERM or SIGABRT calls cb exactly once with that signal's name and number and then lets one wait_for_quit() return; quit(message, signal) does the same with its arguments, and works without a callback. wait_for_quit() does not return before such an event.",
 ["inputs", "histories"], "all signals, messages and callbacks",
 "Tests raise a few signals in one process; the empty callback and the mapping of every signal number are not covered.",
 [S+"signal_handler.cpp"], [("signal name switch", S+"signal_handler.cpp:signal_handler"), ("callback then release", S+"signal_handler.cpp:quit")])
prop("C29", "shared state is only touched under its lock",
 "No two operations of blocking_queue, thread_pool, event_dispatcher, task_scheduler, high_precision_timer and observable that may run concurrently access the same non-atomic mutable member without holding a common mutex, on any path; every mutex taken is released on every path, including exceptional ones, and no path takes two of them in conflicting order or the same one twice.",
 ["schedules", "inputs"], "all paths of all operations that are documented to run concurrently (start, stop, a timer's set_callback and destruction of one object are called from one thread at a time)",
 "A race shows up in a test only under a particular interleaving and usually as nothing at all.",
 [I+"blocking_queue.hpp", S+"thread_pool.cpp", S+"event_dispatcher.cpp", I+"event_dispatcher.hpp", S+"task_scheduler.cpp", S+"high_precision_timer.cpp", I+"observable.hpp"],
 [("scoped locks", S+"task_scheduler.cpp"), ("atomics", I+"thread_pool.hpp")])
prop("C30", "date/time text round trip through format and parse",
 "from_string(d.to_string()) == d for dates, times and datetimes at the printed precision, and from_string throws exactly when the text does not match the format.",
 ["inputs"], "all representable values and all strings",
 "Tests use a few literals.",
 [S+"datetime/date.cpp", S+"datetime/time.cpp", S+"datetime/datetime.cpp"], [("third-party date.h format/parse", "sdk/src/datetime/date.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")

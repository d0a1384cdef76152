import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None,hook=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":["macoro/"+f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)

p("C01","A lazy task runs exactly once, only when awaited, and delivers its outcome",
 "The body of a lazy task does not start before the task is awaited, then runs exactly once, and whoever awaits it receives exactly what the body produced: the returned value, a reference to the very object returned, nothing for a void task, or the thrown exception with its type and content. This holds for every nesting of tasks, for awaiting as an lvalue (result stays readable) or rvalue (result is moved out), for awaiting again after completion, and for suspensions at any point. Awaiting an empty or moved-from task reports a broken-promise error instead of running anything.",
 ["programs","inputs","histories"],"every finite tree of task-returning coroutines over value/reference/void/move-only result types, each body an arbitrary mix of suspensions, child awaits, throws and catches, in either stop-token build",
 "Tests await a handful of fixed two or three level tasks with int results; combinations of result category, await category, repeated await, exception path and suspension point are not sampled.",
 ["task.h","coroutine_handle.h"],[("promise result storage and continuation","macoro/task.h task_promise_base, task_promise"),("start on await","macoro/task.h task_awaitable_base::await_suspend")],
 ["values and exceptions seen by the awaiting coroutine","number and order of body executions"])
p("C02","An eager task's completion and its awaiter always meet, under every schedule",
 "An eager task starts running when it is called; whoever awaits it is resumed exactly once, after the body has finished, with the body's value or exception, no matter how completion on one thread interleaves with the await, with queries for readiness, or with destruction after completion on another thread. The coroutine is never left suspended forever and its state is never touched after it was released.",
 ["schedules","programs"],"all interleavings of one completing thread with one awaiting or polling thread, at every atomic-operation boundary, and every body shape (immediate, suspended, throwing)",
 "The stress test runs real threads a few thousand times and is excluded from the stable list because it crashes; the losing interleaving is a few instructions wide.",
 ["task.h"],[("rendezvous on the continuation slot","macoro/task.h task_promise_base::final_awaiter / task_awaitable_base<T,false>")],
 ["resumption count of the awaiting coroutine","value or exception received","sanitizer reports"])
p("C03","Dropping work at any point releases everything exactly once and leaks nothing",
 "Every coroutine frame, argument, local, result, exception and awaiter created by the library is destroyed exactly once: when the owning object is destroyed, moved over, completed or abandoned, whether the coroutine was never started, is suspended anywhere, has finished, or has thrown. Nothing is leaked, destroyed twice or used after destruction. Moving an owning object transfers ownership and leaves the source empty.",
 ["programs","histories","fault_sequences"],"every program built from tasks, eager tasks, blocking waits, groups and macro coroutines, with drops, moves and exceptions at every point",
 "Tests check results, and no test counts constructions against destructions or drops owners in intermediate states.",
 ["task.h","sync_wait.h","detail/when_all_task.h","coro_frame.h","async_scope.h","detail/scoped_task_promise.h"],[("owning handle destructors and moves","macoro/task.h, macoro/sync_wait.h, macoro/detail/when_all_task.h, macoro/coro_frame.h")],
 ["balance of instance-counted objects and heap allocations after each history"])
p("C04","Macro coroutines behave exactly like native coroutines",
 "A coroutine written with the stackless macros produces the same observable history as the same body written with the native keywords: same order of side effects, awaited values, yields, returns, captured and propagated exceptions, and lifetime of captured state. This covers awaiting with and without a result, awaiting into an existing variable, awaiting with the error captured as a value, awaiting a function expression, returning, yielding, and their await-combined forms, dropping the coroutine at any suspension, and every customisation point of the promise. (Temporaries of an operand other than its value end before the suspension in a macro coroutine, where a native one keeps them to the end of the full expression; and the relative destruction order of separate parameters is the compiler's.)",
 ["programs","inputs"],"every body generated from a small structured language of awaits, yields, loops, branches, throws and returns (awaits are never inside a try block, which macro bodies cannot express), executed through both implementations and compared",
 "Tests compare a few fixed bodies that were written once for both flavours; mixed control flow, exceptions at each point and awaiter edge cases are not sampled.",
 ["macros.h","coro_frame.h","coroutine_handle.h","awaiter.h"],[("resume-index state machine","macoro/macros.h MC_BEGIN..MC_END"),("frame and awaiter storage","macoro/coro_frame.h")],
 ["event history: body side effects, awaiter calls, promise calls, destructions"])
p("C05","Native and macro coroutines await each other freely, in constant stack",
 "Any chain of awaiting coroutines may mix native and macro coroutines, and a handle converted to the type-erased or the standard form, along any path of conversions, still resumes, reports completion of and destroys the same coroutine; type-erased round trips and repeated conversions to the standard form compare equal, handles of different coroutines do not. Awaiting a chain of lazy work of any depth, and awaiting synchronously completing work any number of times in a loop, uses a bounded amount of thread stack in optimised builds.",
 ["programs","inputs"],"all sequences of flavours along a chain, chain depths to the hundred thousands, all conversion paths of handles",
 "Tests mix flavours in one or two places with shallow depth; stack growth shows only at depths no test uses.",
 ["coroutine_handle.h","coro_frame.h","task.h","detail/when_all_task.h"],[("tagged handle and adapter frame","macoro/coroutine_handle.h, macoro/coro_frame.h"),("symmetric transfer","await_suspend returning a handle throughout")],
 ["results of mixed chains","peak stack consumption","handle queries"])
p("C06","A blocking wait returns exactly when the awaited work is done, with its outcome",
 "Blocking on an awaitable starts it once, returns only after it completed on whichever thread, and hands back its value, reference or exception; it never returns early and never misses the completion. A blocking handle starts its work immediately and can be moved and collected later, in any order with other handles.",
 ["schedules","programs","inputs"],"all interleavings of the waiting thread with the completing thread, over value, reference, void and throwing awaitables of every flavour",
 "Tests use immediately-ready or one-thread-hop awaitables on one lucky schedule.",
 ["sync_wait.h"],[("done flag with mutex and condition variable","macoro/sync_wait.h blocking_promise / blocking_task")],
 ["return of the wait relative to completion events","value or exception returned"])
p("C07","Waiting for all completes once, after every member, with results in order",
 "Waiting for a group of awaitables, given as a pack or as a range of any size including zero, starts every member exactly once, resumes the waiter exactly once and only after every member finished, whichever threads they finish on. Each member's value, reference or exception is then read from the position of that member, and a failing member neither hides nor disturbs the others.",
 ["schedules","programs","inputs"],"groups of any arity and mix of result types and failures; completion in any order and on any threads",
 "Tests use two to three ready members in one order; zero-size ranges, failures in each position and completion races are not covered.",
 ["when_all.h","detail/when_all_awaitable.h","detail/when_all_counter.h","detail/when_all_task.h"],[("completion counter","macoro/detail/when_all_counter.h"),("per member task","macoro/detail/when_all_task.h")],
 ["resumption of the waiter relative to member completion","member results"])
p("C08","A scope's join waits for exactly the work added to it",
 "Awaiting the join of an asynchronous scope completes once, when and only when every awaitable added to the scope has finished, including work added while the join is pending, on whichever threads the work finishes. An added awaitable is started immediately; its outcome can be awaited through the returned task, and the task may be dropped at any time without cancelling or damaging the work. Errors of dropped work are reported by the join.",
 ["schedules","histories"],"all histories of add, drop, await, complete and join over a scope, and all interleavings of their completion threads",
 "Tests add a few ready tasks and join; drops before completion, completion during join and awaiting in completion order races are not explored.",
 ["async_scope.h","detail/scoped_task_promise.h","barrier.h"],[("join barrier","macoro/async_scope.h"),("rendezvous of completion, drop and await","macoro/detail/scoped_task_promise.h")],
 ["join completion relative to work completion","values and exceptions delivered","sanitizer reports"])
p("C09","A scoped wait-for-all coroutine finishes only after all its spawned work",
 "A coroutine that spawns work into its own group runs its body immediately in program order, starts each spawned awaitable at the point it is added, and its completion as seen by whoever awaits it happens only after both the body and every spawned awaitable have finished. Values of spawned work can be awaited through the tasks handed back. Errors of the body and of spawned work nobody awaited are reported to whoever awaits the group.",
 ["schedules","programs"],"all bodies spawning any number of awaitables at any point, finishing in any order on any threads",
 "Two fixed tests spawn two or three tasks in one order.",
 ["when_all_scope.h","detail/scoped_task_promise.h"],[("final suspend joins barrier","macoro/when_all_scope.h")],
 ["order of spawn, completion and resumption events"])
p("C10","A barrier releases its waiters exactly when its count reaches zero",
 "A waiter of an asynchronous counting barrier proceeds without suspending when the count is zero and otherwise is resumed exactly once, by the decrement that brings the count to zero, never earlier and never lost. A barrier that has fallen to zero can be raised and used again, with waiters of each round released by that round.",
 ["schedules","histories"],"all sequences of increment, decrement and await, and all interleavings of concurrent decrements with awaits",
 "Exercised only indirectly, through scopes with few members.",
 ["barrier.h"],[("count and waiter list","macoro/barrier.h")],
 ["resumption count and time of each waiter relative to the count"])
p("C11","A manual-reset event wakes every waiter once per set and never loses one",
 "A coroutine awaiting an asynchronous manual-reset event continues at once if the event is set and otherwise is resumed exactly once by the next set; setting resumes every coroutine waiting at that moment, setting again is harmless, and resetting makes later waiters wait again. No interleaving of set, reset and await loses a waiter, resumes one twice or resumes one while the event was never set.",
 ["schedules","histories"],"all sequences of set, reset, query and await, all interleavings between threads",
 "Tests run short single-threaded sequences and one two-thread case.",
 ["manual_reset_event.h"],[("single atomic state word holding set flag or waiter list","macoro/manual_reset_event.h")],
 ["resumption counts per waiter","set query results"])
p("C12","A sequence barrier wakes each waiter as soon as its target is published",
 "Waiting for a sequence number completes exactly once, when and only when that number or a later one has been published, and reports the last published number, which is never behind the target. Publishing wakes every waiter whose target is reached and no other, for any mix of targets, any order of arrival, any number of waiters, and across wraparound of the number type.",
 ["schedules","histories","inputs"],"all publish and wait histories with several waiters, all interleavings of publisher with waiters, number types of different widths with starting points near wraparound",
 "Tests use ascending targets from one start value on few schedules.",
 ["sequence_barrier.h","sequence_traits.h"],[("last published value and waiter list","macoro/sequence_barrier.h")],
 ["number returned by each wait relative to the publish history","query of last published"])
p("C13","The single-producer sequencer hands out every slot once and never overruns",
 "Claims of one slot or of several are granted in order, without gaps or overlap, exactly when the buffer has room: a claimed slot never exceeds the last consumed position by more than the buffer size, and a waiting producer is resumed as soon as the consumer frees enough room. A consumer waiting for a published slot is resumed when it, and not before it, has been published.",
 ["schedules","histories","inputs"],"all histories of claim, publish, consume for any buffer size that is a power of two, any batch size, both sides on any threads",
 "Tests run one producer and consumer with a fixed size and count.",
 ["sequence_spsc.h","sequence_barrier.h","sequence_range.h"],[("producer claim awaiter","macoro/sequence_spsc.h")],
 ["ranges granted, order of claim, publish and consume events"])
p("C14","The multi-producer sequencer: disjoint slots in, contiguous numbers out",
 "Concurrent producers receive disjoint, gap-free slots no further ahead of the consumer than the buffer size; slots may be published in any order, yet a consumer waiting for a number is resumed only once that number and all before it are published, exactly once, and is told a number that is never beyond what is contiguously published. Queries of availability agree with whether a claim would succeed.",
 ["schedules","histories","inputs"],"all claim, publish, consume and wait histories over several producers and waiters, all interleavings, all power-of-two buffer sizes from one up",
 "Tests use one lucky schedule, a fixed size and a single waiter at a time.",
 ["sequence_mpsc.h","sequence_barrier.h","sequence_range.h"],[("claim counter and published slot array","macoro/sequence_mpsc.h"),("waiter list","macoro/sequence_mpsc.h sequence_mpsc::add_awaiter, resume_ready_awaiters")],
 ["ranges granted, numbers reported to waiters, availability query results"])
p("C15","A single-producer channel is a bounded lossless FIFO with orderly close",
 "Every value pushed is received exactly once, unchanged and in order; at no time are more values stored than the capacity, a sender waits exactly while the channel is full and a receiver exactly while it is empty. After close, everything already sent can still be received, a receiver waiting on or asking for the front of a drained channel gets the channel-closed error, every time it asks.",
 ["schedules","histories","inputs"],"all histories of push, front, pop and close over every capacity that is a power of two, value types incl. move-only and strings, with both endpoints on any threads",
 "Tests push small integer counts through fixed capacities.",
 ["channel.h","sequence_spsc.h"],[("slot wrappers and publication","macoro/channel.h"),("slot sequencing","macoro/sequence_spsc.h")],
 ["sequence of values received vs sent","errors at each operation","balance of stored values"])
p("C16","A multi-producer channel loses, duplicates and reorders nothing per sender",
 "With any number of concurrent senders every value pushed is received exactly once and each sender's values arrive in the order sent; the capacity bound, the waiting conditions and the behaviour at close are those of a single-producer channel. A capacity that is zero or not a power of two is refused with an error.",
 ["schedules","histories","inputs"],"all interleavings of several senders with one receiver, over capacities, value types and close points",
 "The test runs a fixed count on one lucky schedule.",
 ["channel.h","sequence_mpsc.h"],[("slot wrappers and publication","macoro/channel.h"),("slot sequencing","macoro/sequence_mpsc.h")],
 ["multiset and per-sender order of received values","errors at each operation"])
p("C17","Stop source, token and callback follow the standard stop-token rules",
 "A stop request is observed by every source, token and callback sharing that state; the first request takes effect and later ones change nothing; a callback registered before the request runs exactly once when it happens, one registered after it runs immediately, and one destroyed before it never runs. Whether a stop is possible depends only on a request having been made or some source being alive, through any sequence of copies, moves, assignments and destructions.",
 ["histories","configurations"],"all histories of create, copy, move, assign, destroy, register, unregister (also from inside callbacks) and request, in both stop-token builds",
 "Tests use short fixed sequences; chains of callbacks past one allocation chunk, removal from inside callbacks and mixed ownership are not sampled.",
 ["detail/stop_state.cpp","detail/stop_source.cpp","detail/stop_token.cpp","detail/stop_callback.h","stop.h"],[("packed reference and request state","macoro/detail/stop_state.cpp"),("chunked callback registry","macoro/detail/stop_state.cpp stop_callback_state")],
 ["query results, callback run counts"])
p("C18","Concurrent stop requests and callback changes stay exactly-once and safe",
 "When stop requests, callback registrations and callback destructions race, exactly one request wins, each callback runs at most once and does run if its registration finished before the request and it was not destroyed, and after a callback's destruction returns it neither runs nor is running on another thread. Destroying a callback from inside itself does not hang.",
 ["schedules"],"all interleavings of requesters, registering threads and destroying threads at every atomic operation",
 "A single-threaded test plus one two-thread test; the lock-free registry's races need specific preemption points.",
 ["detail/stop_state.cpp","detail/stop_callback.h"],[("lock-free slot claims and notification flags","macoro/detail/stop_state.cpp")],
 ["callback run counts and overlap with destruction"],)
p("C19","Awaiting a stop token resumes exactly once, when stop is requested",
 "A coroutine awaiting a stop token continues immediately if stop was already requested, is otherwise resumed exactly once by the stop request, and can be torn down before any request without being resumed. A token that can never be stopped does not hang or crash the waiter's owner.",
 ["schedules","histories"],"all orders and interleavings of await, request and teardown",
 "One test awaits once with a request from another thread.",
 ["stop.h"],[("callback that resumes the waiter","macoro/stop.h stop_awaiter")],
 ["resumption count relative to the request"])
p("C20","A thread pool runs every scheduled continuation exactly once and drains on join",
 "Every continuation posted to or scheduled on a pool is resumed exactly once on a thread that belongs to that pool or is running it, in submission order when a single thread serves the pool. Work objects keep the pool's threads alive; once the last one is gone and the queue is empty, every serving thread returns and join completes without losing work, and joining is possible repeatedly and from destruction.",
 ["schedules","histories"],"all interleavings of posters, workers, work-object release and join, for every number of threads and pool lifecycle",
 "Tests use real time and a few tasks with one schedule each.",
 ["thread_pool.h","thread_pool.cpp"],[("queue, work count and condition variable","macoro/thread_pool.h thread_pool_state")],
 ["resumption count, thread and order; termination of join"])
p("C21","Pool transfers land on the pool: schedule, dispatch, start-on and transfer-to",
 "After awaiting a pool's schedule, or after dispatch from outside the pool, the coroutine runs on a thread of that pool; dispatch from a thread already serving that pool continues inline without suspending. Starting an awaitable on a scheduler runs its body there, with the outcome of awaiting it directly delivered to whoever awaits the result, and transferring to a scheduler continues the coroutine there.",
 ["schedules","programs","inputs"],"all nestings of pools, transfers and awaitables returning values, references, void or errors",
 "Tests check one hop with one value type.",
 ["thread_pool.h","thread_pool.cpp","start_on.h","transfer_to.h"],[("current pool marker per thread","macoro/thread_pool.cpp"),("wrapping coroutine","macoro/start_on.h")],
 ["thread identity before and after each await","delivered results"])
p("C22","Delayed scheduling fires once, not early, in deadline order, or on cancellation",
 "A coroutine that schedules itself after a delay is resumed exactly once on the pool, not before the delay has elapsed unless its stop token fires, in which case it is resumed promptly; with one serving thread, resumptions follow deadlines. A pool with pending delayed work does not finish, and finishes once they are resolved, for every number of threads and every race between expiry, cancellation and new work.",
 ["schedules","histories","inputs"],"all delays, cancellation points and interleavings under a controlled clock",
 "Tests use real sleeps with coarse bounds, few delays and no cancellation races.",
 ["thread_pool.h"],[("deadline heap and stop registrations","macoro/thread_pool.h post_after, cancel_delay_op, run")],
 ["virtual time and count of each resumption","pool termination"])
p("C23","Timeout and take-until request stop when triggered and always complete",
 "Guarding an awaitable with a trigger requests stop on the shared source when the trigger completes first, and completes with the awaitable's own value or error once both sides are finished, in whichever order and on whichever threads they finish. A timeout requests stop after its duration and not before, completes when that has happened, and can be ended early.",
 ["schedules","programs"],"all completion orders and failures of task and trigger, all interleavings under a controlled clock",
 "Tests use real time with one order each.",
 ["take_until.h","timeout.h"],[("pair of joined tasks sharing a stop source","macoro/take_until.h"),("delayed stop request","macoro/timeout.h")],
 ["stop-request state, completion order, delivered outcome"])
p("C24","A result holds exactly one of value or error and its operations obey the laws",
 "A result object reports a value or an error, never both, and returns exactly what was stored through every accessor, conversion, comparison, copy, move and assignment, including for void values, move-only types and equal value and error types. Asking for the wrong alternative throws rather than returning something else: asking a failed result holding an exception for its value throws that exception.",
 ["inputs","histories"],"all sequences of constructions, assignments, queries and comparisons over several instantiations",
 "Tests construct a couple of results and read them directly; constant access, comparison and alternative switching are not exercised.",
 ["result.h","variant.h"],[("two-way variant with tags","macoro/result.h")],
 ["values, errors and exceptions observed through the interface"])
p("C25","Capturing failures as results preserves the outcome",
 "Wrapping an awaitable into a result-producing one, by function, pipe or try-await, yields a success holding exactly the value the plain await would give and a failure holding exactly the exception it would throw, and unwrapping restores the original behaviour. Coroutines returning results propagate the first awaited failure to their caller and run nothing after it.",
 ["programs","inputs"],"all awaitable kinds (value, reference, void, move-only, throwing) and nestings of wrapping and unwrapping",
 "Tests wrap int and void tasks only.",
 ["wrap.h","result.h","macros.h"],[("wrapping awaiter","macoro/wrap.h"),("result coroutine promise","macoro/result.h")],
 ["delivered value or exception, side effects after the failure"])
p("C26","A requested call-stack trace names every awaiting frame, innermost first",
 "Asking for the trace inside a coroutine yields, for every chain of awaiting coroutines, exactly the frames from the asking one outward to the root in order, with the source location of each pending await, and does not change how the chain executes.",
 ["programs"],"all chains of tasks of any depth mixing plain and wrapped awaits, traced from any frame at any point",
 "One test prints a trace without checking its content.",
 ["trace.h","task.h"],[("parent link set on suspension","macoro/trace.h, macoro/task.h")],
 ["frames and locations in the returned trace"])
p("C27","Converting awaitables between lazy, eager and blocking forms keeps the outcome",
 "Turning any awaitable into a lazy task, an eager task or a blocking wait, by function or by pipe (where a pipe form exists: all but make_task) and in any composition, delivers the same value, reference or exception as awaiting it directly; a lazy conversion starts nothing until awaited and an eager one starts it at once, each exactly once.",
 ["programs","inputs"],"all compositions of the conversions up to a depth, over value, reference, void, move-only and throwing awaitables",
 "Tests convert int awaitables through single conversions.",
 ["task.h","sync_wait.h","start_on.h","type_traits.h"],[("conversion coroutines and pipe operators","macoro/task.h make_task, make_eager; macoro/sync_wait.h")],
 ["delivered outcomes and start counts"])
p("C28","Sequence ranges and ordering behave as half-open intervals modulo the width",
 "A sequence range enumerates exactly its half-open interval in order, its size, emptiness, indexing, front and back agree with that enumeration, and skipping or taking a prefix yields exactly the corresponding sub-interval clamped to the range. The before-after ordering of sequence numbers agrees with signed distance modulo the width of the type.",
 ["inputs"],"all starting points, sizes and counts, including intervals across wraparound, for several widths",
 "Not tested directly; sequencer tests use ascending ranges from zero.",
 ["sequence_range.h","sequence_traits.h"],[("range arithmetic","macoro/sequence_range.h"),("signed difference compare","macoro/sequence_traits.h")],
 ["enumerated elements, size, comparison results"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))

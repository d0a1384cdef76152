# Which check programs decide which property. jobs: (source, variants, section regex, case-count scale)
SEQ = "model-based property testing of generated operation histories"
CONC = "property-based testing with generated schedules (virtual scheduler), model oracle"
N_CONC = ("Explores generated programs and thread schedules at atomic-operation granularity (interleavings under ASan+UBSan in which atomic loads may also "
          "return older values where the C++20 memory model allows it, plus a ThreadSanitizer build of the same whose hand-off is invisible to it). Trusts g++ 13, the sanitizers and the harness oracle.")
N_SEQ = "Explores generated inputs and histories under ASan+UBSan with leak accounting. Trusts g++ 13, the sanitizers and the harness oracle."
BOTH = ["asan_own", "asan_std"]
VS = ["asan_own", "tsan_own"]
PROPS = {
 "C10": dict(jobs=[("c10_barrier.cpp", VS)], technique=CONC, note=N_CONC,
   rule="Histories of add/increment/decrement/await/count against a counter model, and 1-3 decrementing threads over 1-3 reuse rounds under generated schedules; the awaiter destroys the barrier right after its last wait. Non-trivial: a wait suspended on a non-zero count, or (schedules) more context switches than thread starts with at least one decrement in the round."),
 "C11": dict(jobs=[("c11_event.cpp", VS)], technique=CONC, note=N_CONC,
   rule="Histories of set/reset/query/await with re-entrant acts by resumed waiters against a flag-and-waiters model, and 2-4 threads of the same operations under generated schedules judged by an interval (happened-before) oracle. Non-trivial: one set released two or more waiters, or (schedules) a wait was really suspended and there were more context switches than thread starts."),
 "C02": dict(jobs=[("c02_eager.cpp", VS, "eager_schedules|eager_chain"), ("c02_eager.cpp", BOTH, "eager_model")], technique=CONC, note=N_CONC,
   rule="One thread completes an eager task (1-3 suspensions, value/reference/void/move-only/throwing, native or macro body) while another awaits it as lvalue, rvalue, by readiness, by polling, by blocking, or polls and destroys it; plus chains of eager tasks with one thread per link, and single-thread histories of task objects (created, moved, assigned over, polled, awaited before and repeatedly after completion, destroyed) against an ownership model. Non-trivial: more context switches than thread starts (schedules), at least two finished awaits and one move (histories)."),
 "C06": dict(jobs=[("c06_sync.cpp", VS)], technique=CONC, note=N_CONC,
   rule='Blocking waits (function, pipe, lvalue, rvalue, collected handle) over eight awaitable kinds and five result types with 0-3 suspensions completed by another thread under generated schedules; groups of up to five blocking handles collected in any order. Non-trivial: the work really suspended and threads alternated (or several suspended handles).'),
 "C07": dict(jobs=[("c07_when_all.cpp", VS)], technique=CONC, note=N_CONC,
   rule='Groups as packs of 0-7 members of eight awaitable kinds and five result types, or ranges of 0-8, each member suspending 0-3 times and completed by up to three threads under generated schedules; the group awaited as lvalue, rvalue, twice, or never, from native and macro coroutines. Non-trivial: at least two members really suspended and the threads alternated.'),
 "C08": dict(jobs=[("c08_async_scope.cpp", ["asan_own","asan_std"], "scope_model"), ("c08_async_scope.cpp", VS, "scope_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of add (8 awaitable kinds, 5 types, 0-3 suspensions, throwing), step, drop, await, move and query handles and join, with the joiner acting inline (drops, awaits, destroys the scope), against a model of pending work and reportable errors; and up to four works completed, dropped, polled and awaited by several threads under generated schedules, one work adding another. Non-trivial: a join began while work was pending among several (histories), or suspended work and alternating threads (schedules).'),
 "C09": dict(jobs=[("c09_when_all_scope.cpp", ["asan_own","asan_std"], "group_model|group_unused"), ("c09_when_all_scope.cpp", VS, "group_schedules")], technique=CONC, note=N_CONC,
   rule='Generated group bodies (spawn of four result types, await/drop of handles, own suspensions, nested groups, throwing bodies and work) awaited from native, task and macro coroutines; single-threaded with a completion model checked after every step, and with one thread per pending piece of work under generated schedules. Non-trivial: at least two independent suspensions among several pieces of work (and threads alternated).'),
 "C28": dict(jobs=[("c28_range.cpp", ["asan_own","rel_own"])], technique=SEQ, note=N_SEQ,
   rule='Generated 8, 16, 32 and 64-bit bounds biased to wraparound, sign change and powers of two, compared with 128-bit modular arithmetic; laws of first/skip; every pair of bytes of a sampled first bound. Non-trivial: a range of at least two elements, or an ordering of distinct numbers.'),
 "C12": dict(jobs=[("c12_seq_barrier.cpp", ["asan_own"], "barrier_model"), ("c12_seq_barrier.cpp", VS, "barrier_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of publish, wait (native, task, macro, stale or copied operation), query with waiters that publish and wait again when resumed, over 8-64-bit numbers starting near wraparound, against a set-of-waiters model; and one publishing thread with 1-3 waiting threads under generated schedules, published data read without further synchronisation. Non-trivial: a publish released two waiters and one released some while others stayed (histories), or a suspended wait and alternating threads (schedules).'),
 "C13": dict(jobs=[("c13_spsc.cpp", ["asan_own"], "spsc_model"), ("c13_spsc.cpp", VS, "spsc_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of claim one, claim up to n (n up to far more than the buffer), publish (single, range, partial), consume and wait over buffers of 1-51 slots and 8-64-bit numbers starting near wraparound, with producer and consumer acting when resumed, against a position model; and a producing and a consuming thread over a real ring buffer under generated schedules, slots accessed without further synchronisation. Non-trivial: a claim and a wait really blocked and more slots were claimed than the buffer holds (histories), more elements than slots and alternating threads (schedules).'),
 "C14": dict(jobs=[("c14_mpsc.cpp", ["asan_own"], "mpsc_model"), ("c14_mpsc.cpp", VS, "mpsc_schedules|mpsc_waiters")], technique=CONC, note=N_CONC,
   rule='Histories of claim one, claim up to n, publish (single, range, any order), consume and wait with any last-known number over buffers of 1-16 slots and 8-64-bit numbers starting near wraparound, with producers and consumers acting when resumed, against a position model, queries compared after every step; 1-3 producing threads and a consuming thread over a real ring buffer, and several publishing and waiting threads within one window, under generated schedules. Non-trivial: an out-of-order publication and a blocked claim (histories), several producers with more elements than slots or several waits, and alternating threads (schedules).'),
 "C15": dict(jobs=[("c15_channel.cpp", BOTH[:1], "spsc_channel_model"), ("c15_channel.cpp", VS, "spsc_channel_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of push, claim-a-slot, publish, front, pop, release (each in every way of letting go) and close on channels of 1, 2, 4 or 8 with copyable and move-only elements, senders and receiver acting when resumed, against a queue model; and a sending and a receiving thread (native or macro) under generated schedules. Non-trivial: sender and receiver both really blocked and more was received than the capacity (histories); more elements than capacity and alternating threads (schedules).'),
 "C16": dict(jobs=[("c15_channel.cpp", BOTH[:1], "mpsc_channel_model|channel_capacity"), ("c15_channel.cpp", VS, "mpsc_channel_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of push, claim-a-slot, publish in any order, front, pop, release and close on multi-producer channels of 1, 2, 4 or 8 with several pending senders, senders and receiver acting when resumed, against a queue model; 1-3 sending threads and a receiving one under generated schedules; capacities 0-99. Non-trivial: sender and receiver both really blocked and more was received than the capacity (histories); more elements than capacity and alternating threads (schedules).'),
 "C17": dict(jobs=[("c17_stop.cpp", ["asan_own"], "stop_model")], technique=SEQ, note=N_SEQ,
   rule='Histories of creating, copying, moving, assigning, swapping and destroying sources and tokens, registering and destroying callbacks (single and in bursts beyond the storage chunk sizes) and requesting stop, callbacks themselves destroying themselves and others, registering, requesting and reassigning, against a model of states and callbacks compared after every step. Non-trivial: several states and at least two callbacks run.'),
 "C18": dict(jobs=[("c17_stop.cpp", VS, "stop_schedules")], technique=CONC, note=N_CONC,
   rule='2-4 threads registering, destroying, requesting and querying on one shared stop state with 0-17 callbacks registered before, callbacks that destroy themselves, register and request, under generated schedules, judged by a happened-before oracle; callback data is written without synchronisation. Non-trivial: a callback ran and there were more context switches than threads.'),
 "C19": dict(jobs=[("c19_stop_await.cpp", BOTH, "stop_await_model"), ("c19_stop_await.cpp", VS, "stop_await_schedules")], technique=CONC, note=N_CONC,
   rule='Histories of awaiting tokens of 1-3 states (native, task, eager and macro coroutines, temporary and member awaiters, empty tokens, tokens whose sources are gone), requesting, dropping sources and tearing waiters down, with resumed waiters tearing others down, requesting and waiting again, against a waiter model; and 1-3 waiting threads racing 1-2 requesting threads under generated schedules, the awaiter freed right after it is resumed. Non-trivial: one request resumed several or a waiter was torn down (histories), more context switches than threads (schedules).'),
 "C20": dict(jobs=[("c20_pool.cpp", VS, "pool_schedules")], technique=CONC, note=N_CONC,
   rule='Pools of 0-3 own threads and 0-2 threads calling run(), 0-3 submitting threads and continuations that submit (post, schedule, dispatch as calls and awaited, native and macro), work objects moved, assigned and released anywhere including by a continuation, pools moved, reused for a second round, joined twice, destroyed or assigned over, a continuation that blocks on a later one, under generated schedules; submission and resumption times judged against exactly-once, order and completion. Non-trivial: three or more submissions and more context switches than threads.'),
 "C21": dict(jobs=[("c21_transfer.cpp", VS, "transfer_schedules")], technique=CONC, note=N_CONC,
   rule='1-3 coroutines (native, macro, blocking or detached) each taking 1-4 steps among schedule, post, dispatch, transfer_to and start_on (function, pipe, by reference or value scheduler, inline scheduler, awaited at once or after moving on) of two pools and suspension resumed by a foreign thread; start_on bodies of eight awaitable kinds and five result types, throwing and suspending. Non-trivial: two or more moves and more context switches than threads.'),
 "C22": dict(jobs=[("c20_pool.cpp", VS, "delay_schedules|delay_jumps")], technique=CONC, note=N_CONC,
   rule='1-6 delayed coroutines (zero, equal, negative, microsecond to hour delays; no, own, shared, requested or impossible stop token) started from several threads, cancelled from threads and pool continuations, over 1-3 pool threads with work held or not, on a virtual clock: one section where time passes only when every thread waits, so each resumption and the end of the pool must come at the exact instant, one with arbitrary passage of time. Non-trivial: two or more operations and more context switches than threads.'),
 "C23": dict(jobs=[("c23_timeout.cpp", VS, "timeout_schedules|take_until_schedules")], technique=CONC, note=N_CONC,
   rule='1-3 timeouts over a pool or a scheduler that resumes inside the stop request, several rounds each (constructed, moved, reset), ended early through the source, the object or an outer token at generated times, awaited early or late; take_until over 8 awaitable kinds and cooperative guards, four result types, timeouts and custom triggers; on an exact virtual clock. Non-trivial: two rounds (or one guarded await) with more context switches than threads; identical traces counted once.'),
 "C24": dict(jobs=[("c24_result.cpp", BOTH, "result_model|result_failing_copies")], technique=SEQ, note=N_SEQ,
   rule='Histories of up to 40 constructions, copies, moves, assignments, reads, writes, fallbacks, comparisons, wrong-alternative accesses and unwrappings over three results, for 15 combinations of value type (int, copyable, move-only, void, exception_ptr) and error type (exception_ptr, int, copyable), against a tagged-integer model. And histories with payloads whose copies fail at a chosen point: what a failed copy leaves. Non-trivial: at least five operations touching two results; or a failed and a successful operation; identical traces counted once.'),
 "C25": dict(jobs=[("c25_wrap.cpp", VS+["asan_std"], "wrap_outcomes"), ("c25_wrap.cpp", BOTH, "result_coroutines"), ("c25_wrap.cpp", BOTH, "try_await_anywhere"), ("c25_wrap.cpp", BOTH, "wrapped_lvalues")], technique=CONC, note=N_CONC,
   rule='Eight awaitable kinds of six result types (values, void, move-only, references) wrapped by function, pipe and try-await from native and macro coroutines and blocking waits, as temporaries and lvalues, captured and released again up to four levels deep, with suspensions completed by another thread; generated programs of native and macro coroutines returning results, nested up to five deep, awaiting successes and failures of five exception types, compared step by step with a model; macro coroutines capturing up to six awaits that fail while being made, made ready, suspended or resumed, event by event against native try/co_await/catch. Non-trivial: a suspension, nesting or failure (two or more awaits in a program); identical traces counted once.'),
 "C04": dict(jobs=[("c04_macro.cpp", ["asan_own","rel_own"], "macro_equivalence")], technique="property-based testing of generated coroutine bodies, differential oracle (native coroutines)", note=N_SEQ,
   rule='Generated trees of coroutine bodies (35 kinds of statement: awaits of eleven awaiter shapes, member, free and transformed co_await, lvalue and temporary operands, children, try-awaits, nested awaits, yields, every form of return, loops, throws; failures at eight points; drops at any suspension; resumption through typed, erased and standard handles) run as native coroutines, as macro coroutines and mixed; every event (calls into promise and awaiters, values, exceptions, destructions) must match the native run. Non-trivial: at least four awaits; identical traces counted once.'),
 "C05": dict(jobs=[("c05_mix.cpp", ["asan_own"], "handle_forms|mixed_chains"), ("c05_mix.cpp", ["rel_own", "rel_clang"])], technique="property-based testing of generated chains, loops and handle histories, model oracle", note=N_SEQ,
   rule='Histories of resuming, converting, comparing, querying and destroying up to three coroutines (native, macro, macro without captures; promises of several sizes and alignments; failing, rethrowing) through typed, erased and standard handles along any conversion path, under ASan and optimised with gcc and clang; chains of 1-25 and of 2,000-100,000 links mixing nine kinds of link (native, macro, wrapped, lvalue, try, a foreign library task that knows only standard handles), with an immediate, suspending or throwing leaf, and loops of thousands of awaits of 18 kinds of synchronously completing work, measuring the stack used (optimised builds). Non-trivial: three resumptions through two forms; three links; every stack case.'),
 "C01": dict(jobs=[("c01_task.cpp", BOTH+["rel_own"], "task_model"), ("c01_task.cpp", BOTH, "return_copy_fails")], technique="property-based testing of generated task trees, differential oracle (plain function calls)", note=N_SEQ,
   rule='Generated trees of lazy tasks up to five levels (native and macro bodies; int, copyable, move-only, reference, void results; every form of return; bodies that suspend, await children, catch or pass on exceptions of four types, throw, or throw from a destructor after returning) awaited in 13 modes (temporary, lvalue, repeatedly, after moves, via containers, when_ready, wrapped, never, empty) by native and macro code; the event trace must equal that of the same tree run as plain function calls. And bodies whose returned object cannot be copied, seen by eight kinds of consumers. Non-trivial: two delivered child values and a suspension; identical traces counted once.'),
 "C03": dict(jobs=[("c01_task.cpp", BOTH, "task_drop"), ("c03_drop.cpp", BOTH+["rel_own"]), ("c03_programs.cpp", VS, "composed_programs"), ("c04_macro.cpp", ["asan_own"], "macro_conserves")], technique="property-based testing of generated programs dropped at any point, fault injection (allocations, throwing arguments), generated schedules for composed programs; conservation oracle and differential against sequential evaluation", note=N_CONC,
   rule='Free-form generated programs (native and macro bodies, nested) that make, move, assign, drop, self-move, swap, convert, group, wrap, block on, collect and await lazy and eager tasks, with failing allocations and throwing argument copies and result conversions, the root awaited, eager, blocking or in a group and dropped at any suspension; generated task trees and macro bodies dropped at a generated suspension. Every body, argument, local, result, exception, awaiter and heap block must be released exactly once. And programs composed of every part of the library (pools, transfers, lazy and eager tasks, groups, scopes, channels, barriers, events, delays, guards) on the threads of two pools under generated schedules, whose outcome must be that of a sequential evaluation and which must release everything. Non-trivial: three or more coroutines, a suspension and a drop (trees: two suspensions and three tasks; macro bodies: four awaits; composed programs: three parts and more switches than threads).'),
 "C26": dict(jobs=[("c26_trace.cpp", BOTH+["rel_own"])], technique="property-based testing of generated trees of awaits, oracle: the recorded line of every pending await", note=N_SEQ,
   rule='Generated trees up to nine deep of native and macro coroutines (lazy and eager; int, void and reference results) that await children as temporary, lvalue, by readiness, wrapped by function and pipe, tried, converted, in packs and vectors of a group, through when_all_scope (spawned or awaited), async_scope, start_on and blocking waits (function, pipe, handle, own foreign coroutine), suspend and are resumed in any order, and ask for traces anywhere; each coroutine records the line of its pending await, and every trace must list exactly those lines from the asking one outward, in its entries and its text, without disturbing results. Non-trivial: two traces and a chain of at least four frames.'),
 "C27": dict(jobs=[("c27_convert.cpp", VS+["asan_std"])], technique=CONC, note=N_CONC,
   rule='Chains of up to five conversions (make_task, make_eager as function and pipe, from temporaries and moved objects, moves, assignments over other tasks) of nine awaitable kinds and six result types (values, move-only, void, references), taken by blocking waits (function, pipe, lvalue, handle), by awaiting in native and macro coroutines, twice as lvalue, wrapped, or never; conversions of references to awaitables; 0-3 suspensions completed by another thread under generated schedules. Start counts are checked after every conversion. Non-trivial: two conversions and a suspension with alternating threads (or, never awaited, two conversions).'),
}

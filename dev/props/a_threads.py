prop('P01', 'Work-stealing deque hands every task to exactly one taker',
 '''Whatever an owner and any number of thieves do concurrently, a task pushed on a work-stealing deque is handed out
 exactly once: none is lost, none is handed out twice, none is invented from an empty deque, also while the deque grows.
 Growing keeps every queued task in order, and memory a thief may still be reading is not released.''',
 ['schedules', 'histories'],
 'every interleaving (under the C11 memory model) of one owner pushing/taking/growing and thieves stealing',
 '''Needs particular interleavings and memory orders around the last element, the index wrap and a concurrent grow; the
 tests run a handful of tasks on an x86 machine with whatever schedule turns up.''',
 ['src/deque.c', 'src/events_internal.h'],
 [('Chase-Lev take/push/steal/resize', 'src/deque.c: deque_take, deque_push, deque_steal, deque_resize'),
  ('initial state and release', 'src/deque.c: deque_init, deque_free')],
 '''Automata over the IR of take/push/steal/resize (rules take, push, steal, resize, init): the order of the atomic accesses on
every path and their memory orders (reserve bottom, seq_cst fence, then read top; acquire top, fence, acquire bottom; slot
written before the release that raises bottom), a compare-exchange on top deciding the last element and every steal, the
emptiness test must not wrap (proved from the linear form of the branch literal), restored bottom when nothing is taken,
slot index = position modulo the size of the very array accessed, copy loop covers top..bottom into a strictly larger
array published after the copy, and no path frees the replaced array. The oracle is the published proof of the algorithm
(Le, Pop, Cohen, Zappa Nardelli, PPoPP'13), whose premises are exactly these local orderings; schedules are covered because
the rules constrain every path and order of each operation, not a run.''',
 'typestate/ordering automata on IR paths (atomics, fences, linear index forms)',
 '''Every path of each deque operation is examined; that these local orderings suffice is the published Chase-Lev proof,
 not re-proved here. Assumes one owner per deque, which P02 checks at the call sites.''',
 observe=['task return values', 'each body runs exactly once'])

prop('P02', 'Tasks handed to other threads are transferred exactly once',
 '''A task created for another worker thread is given to exactly one worker's queue, is announced to that worker once, and is
 not touched any more by the thread that gave it away. A worker taking tasks queues every task it obtains exactly once on its
 own run queue, never a missing one, accounts for it once, and a steal that lost a race is retried without using up an
 announcement.''',
 ['schedules', 'histories'], 'every interleaving of producers and workers, any number of tasks and threads',
 '''A lost announcement or a read of a task after hand-over only shows when the worker wins a race; the tests start a few
 tasks and cannot force those schedules.''',
 ['src/events.c'],
 [('producer', 'src/events.c: enqueue_tasks, task_push, tasks_poster'), ('worker', 'src/events.c: stealer / scheduler steal paths')],
 '''Rules handoff, given, take, retry: on every path of every function that pushes to a deque: target from the pool, push made
while the lock that serialises producers is held, then the available counter raised once and the worker released, and no
later instruction dereferences the task; the same for callers of the creation function; in every function that steals:
abort is retried with neither the available counter nor the loop counter consumed, empty stops, and each obtained task is
enqueued once on the own run queue, lowers the counter once and raises the task count once. Use-after-hand-over is a
dataflow query on the pointer (and its aliases through the expression graph).''',
 'path typestate + escape/use-after-transfer dataflow on IR',
 'All paths of all functions containing a push to or steal from a deque, whatever they are called. Assumes lock acquire/release are the spinlock functions.')

prop('P03', 'A finished task\'s result is visible, complete and its own',
 '''When a task finishes, its returned value is stored before the result is announced ready, and ready before the task is
 announced terminated; a waiter returns only after termination and gets exactly that task's value, and one that asks before
 is told it is not ready. Result records stay valid and keep their content while the table grows concurrently, and a
 finished task that has a result is always announced, so no waiter waits for ever.''',
 ['schedules', 'histories'], 'every interleaving of finishing tasks, waiters on any thread and creation of further tasks',
 '''The windows between storing, announcing and growing the table are a few instructions wide; tests with a few tasks on an
 idle machine almost never hit them and never grow the table while another thread reads.''',
 ['src/events.c', 'include/events.h'],
 [('publication at task exit', 'src/events.c: coro_func/task_delete path storing results_data'),
  ('waiting', 'src/events.c: await_for, task_is_ready, results_for'), ('table', 'src/events.c: events_add result id / tasks_results growth')],
 '''Rules publish, await, table, tid: typestate over the field writes of a result record on every path of the function that runs a
task body (value < ready < terminated, nothing after, each exit has the required writes given the branch facts); await returns
only on a path whose last test saw the terminated flag of the asked record, re-tested after every suspension; the table
pointer and its entries are written only under the system lock, entry index from the atomic id generator and bounded by the
size the table was allocated with, replacement copies before publication, no path frees a table that readers may hold.''',
 'field typestate, lock-set and publication-order analysis on IR paths',
 'All paths. Assumes x86-TSO or volatile/atomic field accesses keep program order of the stores (the compiler barrier is not examined).')

prop('P05', 'A task is queued once, runs in order and wakes on time',
'''A task sits in at most one of its thread's two queues (run queue, sleeping queue) and in that one once. The queues stay
well-formed doubly linked lists under every operation. The scheduler always takes the first task of the run queue and runs it
unless it was ended; a task is only ever queued at the end, and only when it is in no queue: when it gives up the processor
itself, when it is new, when it was just taken from the other queue, or when an event or a task it waits for makes it runnable,
once per wait. delay() parks the running task, at once, in the sleeping queue, which is ordered by wake-up time: the clock plus
the milliseconds asked for, without overflow. A sleeping task is not woken before its time, and at every turn of the waking
task all tasks that are due are woken, put into the run queue and marked as runnable, together with the task that waits for
them if there is one; what such a waiter recorded in the sleeper is used once.''',
['schedules', 'inputs', 'histories'],
'every sequence of queue operations, any number of tasks, any delays and clock values, any order of wake-ups',
'''Queue corruption and double queueing show only under particular interleavings of delays, waits and events (a group waiting
on three differently sleeping tasks hung in one run out of three); the tests use few tasks and short delays.''',
['src/events.c'],
[('run and sleep queues', 'src/events.c: enqueue/dequeue, task_dequeue, add_timeout, delay, yield, resume'),
 ('waking', 'src/events.c: task_wait_system, wait_cb'), ('scheduler', 'src/events.c: tasks_schedulering')],
'''Rules lists (shape analysis of every function that stores to head/tail/next/prev of the task or timer lists: the stores
collected on each path must form complete operations on a well-formed list before control leaves or calls out), fifo (taken
from the head; the taken task is switched to unless ended), origin (where the queued task comes from, on every path; nothing
queued twice; a recorded waiter is cleared with its use; tasks of a group are queued once, only if the group is threaded),
park (after a task put itself to sleep or on a sleeper the next thing is a switch), wake (unlinked from the front under a test
of the clock against its own wake-up time; status; queued; its waiter too), pass (between two switches the waker leaves the
queue only under a test that its head is null or not due), sorted (loop invariant of the search for the place), alarm (linear
form and width of the wake-up time).''',
'shape analysis and typestate on IR paths',
'All paths of all functions that link or unlink tasks. The clock calls are assumed not to fail; resume() is trusted to be given a task that is in no queue.')

prop('P06', 'a thread runs until all of its tasks have ended, each counted once',
 '''A thread that runs tasks goes on as long as one of its own tasks has not ended, and async_run() returns once the last one has. The number of unfinished tasks that
 decides this goes up by one when a task becomes the thread's own (created there, taken from another thread's queue, or handed over with its group, whichever comes first), by one more while at least one task sleeps
 or a path watch started there is active, and down by one when a task has ended; the thread's own system task is left out. The number of sleeping tasks is that of the sleeping queue. A
 task is marked as ended only by itself and only behind the return of its function; it then gives the thread back to the scheduler, is never resumed and never taken for running again.
 Before every round the scheduler looks whether anything is left, and a turn of the loop (events_once) outside a callback runs one waiting task; events_is_running() is true
 as long as any descriptor, timer, I/O, signal or task counts, unless the loop is shut down. delay() returns the milliseconds the task was asleep, however long that was.''',
 ['histories', 'schedules'], 'every history of starting, taking over, grouping, sleeping, waking and ending of any number of tasks',
 '''A test ends when its main task does, so a count one too low or too high shows only as a thread that stops with a task still waiting, or that never stops, in combinations (two sleepers waking
 in one pass, a group that is never waited for, a task taken twice) tests do not have.''',
 ['src/events.c'],
 [('count', 'src/events.c: task_push, task_take, waitfor, __thrd_waitfor, tasks_schedulering, task_system, fsevents_init, fsevents_stop'),
  ('sleepers', 'src/events.c: add_timeout, task_wait_system'), ('rounds', 'src/events.c: async_run, __tasks_pool_wrapper, events_once, events_is_running'),
  ('end', 'src/events.c: task_done, task_func, task_awaitable')],
 '''Rules count, sleepers, rounds, ended, slept. count is a balance along every path of every function that writes the count, the taken, running or system mark or the
sleeper count, or that lists a path watch: changes of the count against the events that call for one (task newly taken, system mark newly set, sleeper count leaving or reaching 0, dequeued task
found ended after it ran); the balance must be 0 at every loop head, switch and exit. sleepers runs the list-shape analysis of P05 and compares insertions and removals with the counter. rounds takes every loop around
the scheduler (found by its store to running) and asks of every exit which fact let it leave; events_is_running is evaluated by conditional constant propagation for each counter.''',
 'balance (typestate) analysis and value tracking over IR paths, list-shape analysis',
 '''All paths of all functions of the library that change these counters. That a task which waits is ever woken (liveness) is not decided here; nor does the rule look into user callbacks.''')

prop('P24', 'switching tasks keeps what each task is made of',
 '''Giving the thread to another task and getting it back loses nothing of a task: its stack pointer, the place where it stopped and every general-purpose register the calling
convention preserves (rbx, rbp, r12 to r15) are as it left them, kept in the part of its own record meant for that, and nothing else is written. The task switched to becomes the active one and is noted as running,
the one left is noted as the one to return to and, unless it sleeps, as not running. The scheduler runs the task it notes as running, never one that has ended, and notes none
while no task runs. A new task begins with its function on a stack aligned as calls expect, at the top of memory of its own that has room for its record, apart from the stack, and
for at least the stack size asked for (and the minimum); when its function returns the task is ended. A task that suspends, outside of callbacks, with its stack used up or its record overwritten
is stopped with a message instead of going on.''',
 ['inputs', 'schedules', 'histories'], 'every order of switches between any number of tasks, any contents of registers, any stack size asked for',
 '''The debug build the tests run keeps nothing in most of those registers across calls and tests use little stack, so a register lost or a stack a few hundred bytes short shows nowhere; with optimised
callers it corrupts whatever they kept there.''',
 ['src/asm.c', 'src/events.c'],
 [('switch routine', 'src/asm.c: coro_swap_function (machine code), task_derive'), ('switch', 'src/events.c: task_switch, tasks_schedulering, __tasks_pool_wrapper'),
  ('task memory', 'src/events.c: create_task, tasks_stack_check, suspend')],
 '''Rules swap, frame, room, switch, runs, overflow. swap decodes the bytes of the array the switch pointer is set to (anything but straight-line moves, pushes, pops, constant adjustments of a register and the final jump
ends the analysis as broken) into a relation between registers and memory, and composes it with itself: every preserved register, restored by the switch back from what the switch away stored, must be what it was, the stack pointer
8 above, the jump at the return address; stores stay in the record's first member or below the own stack pointer. frame and room evaluate, on every path of the function that claims a task's memory, what it stores there against what that very
routine reads for a task never run: entry point, return address, alignment (linear forms with rounding slack), end of memory, room for record and requested size from the path's facts. switch, runs and overflow are facts and
stores known on every path to a switch, and on the returning paths of the stack check.''',
 'decoding of the switch routine into transfer relations, value tracking over IR paths',
 '''All paths of the functions concerned, for the x86-64 System V routine this build uses; the routines for other processors, floating-point control words and what a signal handler does to a small stack are not looked at. That a task never uses
more stack than it has cannot be bounded; only what happens when it suspends afterwards is decided.''')

prop('P07', 'The record of a task lives until its last user is done with it',
 '''The record (and stack) of a task is released once, and only after the task has ended: by the scheduler when nobody waits for
 the task or refers to it, by the waiter of its group after it saw the task ended and took it out of the group, or with what was
 collected when the library shuts down. A task that is running, asleep or not yet run is never released, an ended one is never
 left behind. Nothing looks into a record after it was released or after other tasks ran that may have led to its release, and
 the places where the library remembers a task of its own are cleared before that task is released.''',
 ['histories', 'schedules'], 'any order in which tasks end, wait, are referred to and are cleaned up, on any thread',
 '''Released memory keeps its contents for a while, so a use after release or a second release goes unseen in a short test run;
 it takes the memory being reused in between, or shutdown at the right moment.''',
 ['src/events.c', 'src/events_internal.h'],
 [('release', 'src/events.c: task_delete, events_task_unwind, events_deinit'), ('end of a task', 'src/events.c: tasks_schedulering, __tasks_pool_wrapper'),
  ('waiters', 'src/events.c: tasks_wait, waitfor, __thrd_waitfor'), ('who is waited for', 'src/events.c: task_push')],
 '''Rule release: in every function that frees a task record the mark of a live task was found on the path, the mark is overwritten
or the place cleared, nothing uses the record afterwards, and a live record found at the end of a thread is freed. Rule states: task_delete
is propagated with each of the eight states of a task; it frees in exactly four. Rule deleting: at each call of task_delete one of the four
justifications is proved from the branch facts of the path (ended and neither waited for nor referred to; seen ended, removed from the array
at the very index it was read from, mark of waiting cleared; a referenced task of this function whose body clears a field that is still set;
taken from a place already cleared) and no later instruction of the path reaches into the record. Rule forgotten: the places a created task is
stored in (found by dataflow) are each compared and cleared before the scheduler deletes. Rule disposed: deleted, collected or left to its
waiter, once, on each path of the scheduler and of each waiter's loop. Rule waited: the mark is set exactly where the task is appended to the
group of the running task. Rule held: a record used before a call that may run the scheduler (call graph closure of the context switch) is
not used after it, unless it is the running task, one of a group waited for, off the run queue or referred to.''',
 'typestate and use-after-release dataflow on task records over IR paths, call-graph closure of switching',
 '''All paths of all functions that free, delete, collect or hold task records. That a task off the run queue is deleted by nobody else rests on
 P05/P06 (one queue, one scheduler). The record of a task used by user code after its end (resume of an ended task) is the caller's business.''',
 observe=['no use of released memory under a guarding allocator'])

prop('P28', 'A generator hands over every value once, in order',
 '''Each value a generator's task yields is handed to a taker once and in the order yielded; none is lost, overwritten or handed over
 twice, whatever other tasks run in between and also when the task ends first: yielding waits (letting other tasks run) until
 the value before was taken, taking waits until there is one, and gets an empty result only when nothing is ready and the task has ended.
 The taker is told whose value it got. The generator learns of the end of its task before the task's record can go; its own record outlives
 the task and is released once, at shutdown. Asking something that is not a generator gets an empty result.''',
 ['schedules', 'histories'], 'any order in which the generator task, its takers and other tasks run, any number of values, any end of the task',
 '''Tests have one taker that is always ready before the next value; a taker that lets other tasks run in between, or a task that ends with
 a value still not taken, is a schedule they do not have.''',
 ['src/events.c', 'src/events_internal.h', 'include/events.h'],
 [('put', 'src/events.c: yielding'), ('take', 'src/events.c: yielded'), ('end of the task', 'src/events.c: task_func, task_done'),
  ('record', 'src/events.c: generator, data_gc, events_deinit')],
 '''Rule put: on each path to a store of a value into a generator the ready mark was read as unset since other tasks last ran, the value is
the argument and the mark is set after it on each path out; each turn of the waiting loop calls something that may switch. Rule take: each
path that unmarks read the mark as set and the value with no switch in between, returns what it read and tells the taker; each other path out
knows the mark as unset and the task as ended, or that it is no generator. Rule end: where the body of a task has returned, the link from a
generator back to the task is cleared before the task is marked as ended. Rule made: the record is complete and collected once on every path that
returns it. Rule kept: only shutdown releases one.''',
 'typestate and value tracking over IR paths, call-graph closure of switching',
 '''All paths of all functions that touch a generator's record. Wakefulness (that the other side ever runs) is not decided; that a thread keeps its
tasks is P04/P05's part.''')

prop('P27', 'Start-up, shutdown, loops and workers leave nothing behind and start afresh',
 '''Set-up (events_init, os_init) and shutdown (events_deinit, os_shutdown) each do nothing and report success when already done; after a failed
 set-up nothing it acquired is kept and it can be tried again, after a shutdown it can be done again. A new run starts from fresh state: no queue,
 counter of tasks or sleepers, current, main or active task, loop, pool, result, id or list of an earlier run is seen by it, all being set anew
 before the first task is made. Shutdown releases, once, all memory the library keeps: descriptors' table, queues' table, results with every record, lists of
 workers, the sleeper's task and every task, generator and array collected; no place keeps pointing to it. An event loop that cannot be created is
 not counted, not known to the thread and keeps neither memory nor descriptor; each created one is counted and numbered once; destroying one closes
 its descriptor and releases its memory once. A worker thread destroys the loop of its own queue once when it ends, but never one it shares with
 the thread that made it. A worker that could not be started leaves nothing behind, is not listed and reported as failed; a started one is
 listed once; the table of queues has room for every processor, is empty at first and never used past its end.''',
 ['faults', 'histories', 'inputs'], 'any failure of an allocation, descriptor or thread creation during set-up, any number of runs one after another in one process, any number of loops',
 '''Tests start the library once per process and no allocation fails there; what a second run, a failed set-up or one more loop than processors meets is never seen.''',
 ['src/events.c', 'src/epoll.c', 'src/os_unix.c', 'src/deque.c'],
 [('set-up and shutdown', 'src/events.c: events_init, events_deinit, __thrd_init; src/os_unix.c: os_init, os_shutdown; src/deque.c: deque_destroy'),
  ('loops', 'src/epoll.c: events_create, events_destroy; src/events.c: events_init_loop_internal, events_deinit_loop_internal'),
  ('workers', 'src/events.c: events_create_future, events_create_pool, __future_wrapper, __tasks_pool_wrapper')],
 '''Rule gate: the mark each of the four functions looks at first is found in the code; on every path the marks it leaves (own stores, or unknown
after a call that may write them) must fit the path's outcome, the already-done path must do nothing, and every result acquired on a failing path is
given back or known not to have been acquired. Rule fresh: the places of the thread and library records stored to by any other function, and the latches set by making a task, are
collected from the code; each must be overwritten, with 0 where constant, on every complete path of set-up or of shutdown, and before the first task if the call graph
closure of making a task touches it. Rule released: the places any function stores a new allocation into are collected; on every path through shutdown each is known empty or released once, then cleared; collected
elements are released by the kind the path found; loops reach first and last. Rules loop, owner and worker track acquired results, descriptors, counts, the shared mark and the table slot over all
paths of the functions that create, destroy and start.''',
 'resource typestate and must-set dataflow over IR paths, call-graph closure of touched state',
 '''All paths of these functions on the Linux build. Memory user code keeps, the pseudo-descriptor table's entries and resized deque arrays (kept on purpose while thieves may read them) are
not counted as left behind; that worker threads notice shutdown is not decided (liveness).''')

prop('P29', 'Waiting for a task group ends with all its tasks, each result given once',
 '''A task group made with task_group() or waitgroup() becomes the open group of the task that made it, new and without marks. Waiting for it
 (tasks_wait, waitfor) acts only for the open group of the running task; any other group is left alone and nothing is given back. The group is closed
 before other tasks run, so that no task joins it any more. A task is taken out of what is waited for only when it has ended, then deleted before others run, and
 its result, if it has one, is recorded exactly once before that, under the lock of the list when workers record too, in a list made with room for all
 the tasks. The wait ends only when no task is left and, for a waitgroup, every worker told of it has counted down; each round of it takes a task out
 or lets other tasks run. A waitgroup is shared out only by the main thread and only while no worker still has another one: each task handed over goes to the
 jobs of exactly one worker and carries that worker's number, each worker is told once its jobs are complete and is started, and the count is the
 number of workers told, set before. Tasks of a waitgroup are each made ready and queued to run once by the thread that waits for them. A
 worker counts down by one, under the lock of the group, once its whole part has ended and it is free for the next group, and does not touch the group afterwards.
 The group is released exactly once, after the last worker has let go of its lock; the results are given back and collected once,
 or released and nothing given back when there are none.''',
 ['schedules', 'inputs', 'histories'], 'any number of groups, tasks and workers, any interleaving of waiting tasks and workers, any mix of ended, sleeping and running members',
 '''Tests wait for one group at a time on the main task with few quick tasks; two groups at once, a wait inside a worker, a worker without tasks or a
 result arriving while the waiter finishes are left to chance.''',
 ['src/events.c'],
 [('groups and waiting', 'src/events.c: task_group, waitgroup, tasks_wait, waitfor, create_task_group'), ('sharing out', 'src/events.c: tasks_poster, tasks_posted'),
  ('worker part', 'src/events.c: __thrd_waitfor, group_result_set, __tasks_pool_main')],
 '''Every function that takes elements out of a list of members (task_group_s.group, events_deque_s.jobs) is tracked over all its IR paths, helpers inlined. Rule ended: removal
 only of the element seen ended since the last call that may run others (call graph closure over the context switch), its result appended once unless seen to be none,
 the lock held if the list is stored in the group, the record deleted before the next such call, round or exit. Rule all: an exit needs the list's size
 seen as zero after the last removal and, unless the group was seen not to be a waitgroup, the count seen as zero or less; every innermost waiting loop
 must remove or switch in each round. Rules closed and given: stores to the two marks, lock and unlock after the count, order and number of releases. Rule down: typestate of the worker's
 part. Rules post and begun: a loop counts as going through all only if its counter starts at 0, steps by 1, ends at the size of that very list and
 each round did its part; queue, worker number and counter must be the same expression. Rule made: field stores of the making functions.''',
 'typestate dataflow over IR paths with whole-list loop coverage, call-graph closure of task switches',
 '''That members end, and hence that a wait ends, is liveness and not decided; deletion and waiting marks are P07, queue operations P05, counts P06. Other threads' writes
 between reads of the count are ordered by the lock, which is what the rules check.''')

prop('P25', 'Locks: exclusive, always given back, nothing waits while holding one',
 '''A spin lock is taken only by an atomic exchange that found it free, with acquire ordering, and giving it back is a release store of free; so at most one thread is
 between taking and giving back. Every function that takes a lock gives it back exactly once on every path out of it, in the same function, and does not take it
 again or give back one it does not hold. While a lock is held, no path switches tasks, waits (sleeps, polls, joins, blocking calls), throws, ends the
 process, calls a function the user gave, or takes another lock, so no lock is held longer than a few steps and no two threads can wait for each other's locks. What
 all threads share is changed under one and the same lock: the table of results, its size and its entries, the list of what is freed at the end, the
 queues tasks are handed to other threads by, the list of watch tasks; except by starting and ending the library. A lock that is part of a list's memory does not
 guard what may move that list. The lock in a new array or promise is free before it is handed on, whatever the memory held before.''',
 ['schedules', 'inputs', 'histories'], 'any number of threads taking any locks in any interleaving, any contents of recycled memory, every path through every function that takes a lock',
 '''A missing release on one early exit, an exchange without acquire, or an append outside the lock shows only when two threads meet at that instruction; tests run few
 threads with little contention, and a dirty block is reused as an array only by chance.''',
 ['src/events.c', 'src/arrays.c', 'src/future.c', 'src/except.c', 'include/catomics.h'],
 [('lock', 'include/catomics.h: atomic_spinlock_lock, atomic_spinlock_unlock'), ('shared tables', 'src/events.c: tasks_create_result, enqueue_tasks, fsevents_init, fsevents_stop; src/arrays.c: data_gc'),
  ('locks in records', 'src/arrays.c: arrays, data_append; src/future.c: alloc_promise, promise_set, enqueue_promise; src/events.c: group_result_set, __future_wrapper')],
 '''Rule excl: typestate of the two lock functions on IR paths: an exit of taking needs the last own exchange seen to have returned free, and its ordering and value are read from
 the instruction. Rules pair and calm: every function with a call that takes a lock (helpers inlined) is tracked over all paths with the set of locks held, a lock being named by
 the address expression (or the list it belongs to, through moves); each call made while one is held is looked up in call-graph closures over switching, blocking,
 throwing, locking and calls through pointers. Rule guard: a forward must-hold lock set per function; each change of a global place, by a store, an entry of a table kept there, a list operation or
 a queue push, is compared with all other changes of that place. Rule born: in functions that allocate a record with a lock field, an exit needs the field stored as free after the
 first other store.''',
 'lock-set dataflow and typestate over IR paths, call-graph closure of blocking, switching and throwing effects',
 '''Reads of shared tables without a lock are P03; locks private to one record's own protocol (jobs of a future: P12, counts of a group: P29) are only checked for pairing here. The
 allocator's calls made under a lock are taken not to block or throw. Fairness of the spin lock is not decided.''')

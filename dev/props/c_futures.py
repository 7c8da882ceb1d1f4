prop('P11', 'A future or promise delivers its outcome once, complete, to its waiter',
 '''A promise is set by storing its outcome (value, copied array, error number or exception) under its lock, releasing the lock
 and only then announcing it done, exactly once, on every path; after that the setting thread does not touch it any more. Whoever
 reads the outcome has seen it announced first, and gets exactly the value stored, the error number of a failed job, and, for a
 thread future, the exception the function raised, with its message. Done stays done until the promise is given a new job, and then starts from
 an empty outcome; thrd_get waits for, and joins once, the future's thread. queue_wait hands the result of each job, once it is done, to
 its callback once, queue_get gives it, and the result then counts as taken; a promise that holds a result not taken is never refused.''',
 ['schedules', 'inputs'], 'every interleaving of the setting thread and any waiters; every returned value, error and exception',
 '''The windows between storing, announcing and releasing a promise are a few instructions wide and reuse of a promise with a
 stale outcome needs particular sequences; tests run one happy path each.''',
 ['src/future.c', 'include/except.h'],
 [('setting', 'src/future.c: promise_set, promise_erred'), ('waiting', 'src/future.c: promise_wait, queue_get, thrd_get'),
  ('thread', 'src/future.c: _thrd_wrapper, thrd_async')],
 '''Rules set (typestate over every function that announces a promise: lock, outcome, unlock, done, nothing after), read (in every
function that reads an outcome, each read is preceded on its path by an observation of done on the same promise; error number
examined and passed on), fresh (the done flag is cleared only in functions that create a promise or give it a new job, with the
whole previous outcome, before hand-over), thread (function run once with its arguments, result or caught exception delivered to
the future's own promise, waiter joins and rethrows), deliver (typestate over queue_wait, queue_get and thrd_get: handed over, taken, refused with what is
known of the outcome), value (what is returned is the stored value with the right indirection).''',
 'typestate automata on IR paths with access-path identity',
 'All paths of all functions that set, read, clear or announce a promise. Sequentially consistent flag operations are taken from the atomics used.')

prop('P12', 'Every job given to the work queue runs exactly once, in order',
 '''A job submitted with queue_work or promise_work is queued once, with the caller's function and arguments, on one
 worker chosen from the table of future workers, under that worker's lock, and announced to that same worker once, after it is in the
 list. A worker takes a job only when one is announced, uses one announcement per job, takes jobs in order, runs each once with its
 own arguments, outside the lock, sets that job's promise with what it returned, releases the arguments once, and drops none; it
 stops only when shutdown is requested. The submitting side does not touch a job its worker may have finished; a submission is
 refused only when something is lacking; then it is reported and releases what was made for it once.''',
 ['schedules', 'histories'], 'every interleaving of submitting tasks and workers, any number of jobs',
 '''Lost, doubled or prematurely released jobs need several submitters and workers racing; the tests submit a few jobs and look at
 their results.''',
 ['src/future.c', 'src/events.c'],
 [('submission', 'src/future.c: queue_work, promise_work, queue_work_handler, enqueue_promise'),
  ('worker', 'src/events.c: __future_wrapper, events_create_future')],
 '''Rules submit, enqueue, worker, stop, spread: automata over the submitting functions, the helper task they create (found through the
create_task argument), every function that takes jobs from a job list and sets promises, and the function that starts workers;
identity of queue, lock and job is by access path, counters by the atomic operations themselves; the chosen worker's index must be
taken modulo the length of the very table indexed.''',
 'typestate automata and lock-set analysis on IR paths',
 'All paths. Assumes data_append/data_shift are FIFO (P16).')

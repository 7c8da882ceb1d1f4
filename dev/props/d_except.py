prop('P09', 'try/catch/finally: right block, once, in order, per task',
 '''An exception thrown inside a try block goes to the innermost open block of its own task (or thread), whatever other tasks do while
 tasks of one thread interleave. Before control gets there, every heap pointer still protected inside that block (protection ends newest first) and not NULL is released once,
 newest first, and none protected by outer blocks. A catch part runs only for a pending exception whose name
 matches (catch_any and catch_if: any; an exception already taken: none), at most one part takes it; the finally part runs exactly once, with
 or without an exception, with the surrounding block already the innermost; an exception that nobody took is thrown again to the
 surrounding block unchanged (name, function, file, line, message). Without a surrounding block, or when thrown while unwinding, the
 program is terminated. caught(name) says whether name is the pending exception's and only then marks it taken. In a catch part that
runs, and in the finally part, err has the exception's name, function, file and line, and in the finally part err.is_caught says whether it was taken.''',
 ['schedules', 'inputs', 'histories'], 'every nesting of try blocks, every throw point, every interleaving of tasks of one thread',
 '''Tests throw in one or two nestings on one task; a chain mixed up by a task switch inside a try block, an unwound pointer missed or
 released twice, or a block that runs twice shows only with particular nesting, order and interleaving.''',
 ['src/except.c', 'include/except.h', 'src/coro.c', 'src/events.c'],
 [('blocks', 'src/except.c: try_start, try_next, try_catching, try_finallying, try_rethrow'), ('throw', 'src/except.c: ex_throw'),
  ('protected pointers', 'src/except.c: ex_protect_ptr, ex_unprotected_ptr, ex_unwind_stack'), ('name', 'src/except.c: is_except'),
  ('switch', 'src/events.c: every function that gives the thread to another task')],
 '''Rules enter, leave, catch, finally, chain, throw, protected, caught, task: symbolic memory tracking of the chain head and of the
fields of the block along every IR path of the functions of the macro protocol, found by the effects on ex_context_s (stores of the
chain head anywhere else are violations: rule chain); for each entry state (stage, exception pending or not, name matches or not) the stage,
the result and the chain at every exit are those of the published protocol; `throw` orders record < unwind < longjmp and demands
a terminating call where no block is open; `protected` is a loop rule over the list of protected pointers (each element once,
next element taken before the release, stop at the unprotected one); `task` quantifies over every context switch in the library: the chain
head after it is the one saved by the same function before it.''',
 'symbolic memory tracking and typestate over IR paths, effect query for the chain head',
 '''All paths of all functions writing the chain head or a block's fields. Operating-system signals turned into exceptions, guard blocks and the
 deferred calls they run are not part of this property; setjmp/longjmp themselves are trusted.''')

prop('P08', 'deferred calls and memory: each once, newest first, with their own task or guard',
 '''Every call deferred with defer(), deferring() or deferred() is made exactly once, with the argument it was given, and every
 allocation or array given to defer_free() is released exactly once (a pointer is_ptr_usable() refuses is left alone). It happens: when deferred inside a guard, as that guard
 closes (normally or by an exception of its own), the innermost guard opened by the same task counting, or by the same
 thread where it runs no tasks; else, when deferred in a task, after the function of that task has returned and before its arguments are released and before it is
 announced terminated or its result ready; when deferred in a job of queue_work(), before the result of the job is announced and its arguments are released; else
 at the end of the thread. Within one guard, task or thread it goes newest first, what is deferred meanwhile included. Guards nested in one
 task or thread come back into force as inner ones close, and tasks interleaving on one thread never get each other's guards. fence() is not part of this.''',
 ['histories', 'schedules', 'inputs'], 'every number and nesting of deferred calls and guards, every interleaving of tasks of one thread',
 '''Tests defer two or three calls in a function and look at the order. A list that moved when it grew, a call deferred while unwinding, or one
 task yielding inside a guard while another defers need sizes, nestings and interleavings no test has.''',
 ['src/events.c', 'src/except.c', 'src/future.c', 'include/except.h'],
 [('adding', 'src/events.c: deferred, defer_free; src/except.c: scope_deferred'), ('running', 'src/events.c: deferred_unwind; src/except.c: scope_unwind'),
  ('moments', 'src/events.c: task_awaitable, __future_wrapper; src/future.c: _thrd_wrapper; src/except.c: guard_reset'),
  ('guards', 'src/except.c: guard_init, guard_scope, get_scope')],
 '''Rules run, add, scope, end, guard: path-sensitive value tracking. run takes every function that calls through the function field of a
 deferred record (found by that effect) and follows list, element, tag and record through the loop for an arbitrary round; add follows
 the value put on a list to every exit and says which list it must be and that the record is complete and the possibly moved list put back; scope takes every read of the
 guard a thread opened last; end takes every indirect call through the function field of a task or a job and orders the unwinding
 against the release of the arguments, the announcement and the exit; guard follows what is opened, remembered and restored.''',
 'typestate and value tracking over IR paths, anchored on effects on the deferred record, the task and the guard',
 '''All paths of all functions that make, add or trigger deferred calls. That data_append() and data_pop() of arrays keep what they are given is P16. Exceptions thrown by a deferred
 call, memory below the is_ptr_usable() bound and what the atexit handler does at process end are not decided.''')

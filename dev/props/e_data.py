prop('P16', 'arrays: elements in order, room for each, tuples unchanged, no stale array',
 '''A dynamic array (array, arrays, data_ex, data_copy, range, rangeing with a positive step, range_char, and the library's own lists) behaves as
 a sequence. $append and data_append_item put the element, whole and as the kind told, behind the last one, change no other and never write outside the memory of the array, however often
 it has grown; data_remove of an index inside takes out that element and keeps the others in order, of an index outside changes nothing;
 data_pop takes the last and data_shift the first, which they return, and of an empty array give the empty value and change nothing; making an array of values, a range
 or a copy has each of them once, in order; data_reserve never takes room away and makes at least the room asked for; data_reset empties. The capacity of an array is never
 more than its memory holds. Any of these that would change a tuple throws logic_error with the tuple as it was. data_delete releases an array once and
 is_data() does not take it for one any more; is_data() takes ranges, tuples and arrays for one and nothing that does not bear their mark, and reads nothing that is_ptr_usable() refuses. Inside the
 library whoever adds to an array that may move keeps what comes back before anyone can look for it, and the results of a wait group have room for all the group's tasks from the start.''',
 ['inputs', 'histories'], 'every size, every sequence of operations on an array, every place in the library that keeps one',
 '''Tests append a handful of values. A write one past the room shows only at the sizes where growth falls on an edge and mostly under a memory checker, a stale array only
 where the allocator moves it.''',
 ['src/arrays.c', 'include/events.h', 'src/events.c', 'src/except.c'],
 [('operations', 'src/arrays.c: data_append, data_append_item, data_remove, data_pop, data_shift, data_reset, data_reserve, data_delete, is_data'),
  ('making', 'src/arrays.c: arrays, data_ex, data_copy, range, rangeing, range_char'), ('header', 'include/events.h: array_grow and the array_ macros'),
  ('keepers', 'src/events.c, src/except.c: every caller of data_append, data_append_item and data_reserve')],
 '''Rules append, remove, tuple, life, fill, room, keep, reserve: path-sensitive tracking with the number of elements N and the room C as symbols (N <= C assumed on entry and
re-established on exit): index of every element written, linear forms of the block moves that close a gap, of the bytes of each allocation against the capacity written,
and of the size at each exit. tuple runs each operation with each type code; keep is a forward search over the graph
from each of the 30-odd calls that may move an array (no use of the old value, and the place it was read from rewritten before a call, a reload or a return).''',
 'value tracking over IR paths with linear arithmetic; forward dataflow of moved arrays',
 '''All paths of all array operations, all functions of the library that set a capacity or call an operation that may move an array. Overflow of 64-bit sizes and allocation failure are not
 considered; user code that keeps its own copy of a moved array is outside.''')

prop('P20', 'what a function opens or allocates it releases or hands on, once, on every path',
 '''A library function that opens a descriptor (socket, accept, open, inotify, ...), a stream, a directory or an address list, or allocates a block, either itself or by calling a library function that
 returns a fresh one, has on every path to its end, the failing ones included, closed or freed it, returned it, stored it where others find it, or given it to a function that keeps it, unless
 opening it failed. This is about the function that opens or allocates and lasts until it hands the thing on; when records that live on give up what they keep is not part of it. After a block was freed the function does not read, write,
 pass on, return or free it again, and what was closed is not closed again.''',
 ['inputs', 'faults'], 'every path of every library function that opens, allocates, closes or frees; every combination of failing calls',
 '''The paths that leak are the ones where bind, listen, connect, stat, malloc or a task's creation fail: tests do not make those fail, and a leak of one descriptor or block shows in no result.
 A use after free of a small block mostly reads what was there.''',
 ['src/async_io.c', 'src/os_unix.c', 'src/events.c', 'src/arrays.c', 'src/async_udp.c', 'src/async_uds.c', 'src/epoll.c', 'src/except.c', 'src/future.c'],
 [('sockets', 'src/async_io.c: async_socket, async_connect, async_bind, async_accept; src/async_uds.c; src/async_udp.c'), ('files', 'src/async_io.c: fs_*, _os_*; src/os_unix.c: copyfile, os_copyfile, opendir users'),
  ('memory', 'every caller of events_malloc, events_calloc, events_realloc, events_memalign and events_free')],
 '''Rules open, heap, twice. For each call that opens or allocates (also of library functions found to return a fresh descriptor, stream or block on all paths that do not fail) one path-sensitive run follows the value
to every exit: it must be closed/freed, part of the return value, stored, or passed to a function whose body keeps that parameter (a summary over the call graph); paths on which the value is known to be -1 or NULL owe nothing.
A value stored in a record this function allocated counts as kept only while the record is. For each close or free one run follows the released value (and the place it was read from, until that is rewritten) forward.''',
 'path-sensitive resource typestate over IR with call-graph summaries of who keeps a parameter',
 '''All functions. Calls through pointers and functions outside the library not known to only read count as keeping a block; two different values that are equal at run time are not matched.''')

prop('P04', 'I/O of a task suspends only that task, until its descriptor is ready',
 '''When a read, receive, write, send, accept or connect of a task would block, the task registers a wake-up for exactly that
 descriptor and direction on its own thread's event loop and only then gives up the processor; the wake-up makes exactly that
 task runnable exactly once and is then removed, and if it cannot be registered the task is not parked. A blocked operation
 is repeated on the same descriptor with the same arguments only after such a wait; any other failure is reported at once.
 async_write goes on after a partial write exactly where it stopped with exactly the rest, until all is written, nothing more
 is accepted or an error occurs, and reports what was written or the error. Sockets handed to tasks are non-blocking, and
 switching that mode keeps the other descriptor flags.''',
 ['inputs', 'schedules', 'faults'],
 'every sequence of results the kernel may give to the I/O calls, any buffer size, any order of readiness events',
 '''Partial writes, EAGAIN at every point, and failing registrations depend on kernel buffers and resource limits; the tests do
 small local transfers that succeed at the first try.''',
 ['src/async_io.c', 'src/async_udp.c', 'src/events.c'],
 [('wake-up registration', 'src/events.c: async_wait and its callback'), ('retry loops', 'src/async_io.c, src/async_udp.c')],
 '''Rules waker (typestate of async_wait and the callback it registers), retry (every function that waits around an operation:
automaton over operation / errno test / wait / repetition, with identity of descriptor, direction and arguments), result (the
returned value is the last operation's; for async_write linear induction over the joint loop phis: pointer +r, rest -r on
every back edge, and what may be true at each exit), nonblock (sockets opened or accepted are made non-blocking before being
handed on or connected; the fcntl argument is the old flags with exactly the bit changed).''',
 'typestate automata and linear induction on IR paths',
 'All paths of all functions that wait for a descriptor. That events_add and the loop deliver readiness is P13; kernel behaviour is assumed.')

prop('P19', 'Blocking file calls run off-thread with the caller\'s exact arguments',
 '''Every fs_ and async_ wrapper of a blocking system call made inside a task performs exactly the call it is named after, on a
 worker thread and never on the event-loop thread, with every caller argument in its place, in order and with its full width; the
 caller gets that call's result untruncated once it is finished.''',
 ['inputs'], 'every argument value of every wrapper, at full width',
 '''A swapped or truncated argument only shows for arguments where it matters (offsets above 4 GiB, both flags set, negative
 ids); the tests use a couple of small files.''',
 ['src/async_io.c', 'src/future.c', 'src/events.c'],
 [('argument marshalling', 'src/async_io.c: fs_* and the worker-side functions they name')],
 '''Rules args (for each public wrapper the array handed to the worker is tracked store by store; the worker function's reads of
element k are matched with the wrapper's k-th store and the system call's parameter; every conversion on the way must not
narrow), result (what the worker function returns is the call's value at full width and what the wrapper returns is the
worker's result), offthread (in the flattened wrapper, on the task path, no direct system call of the table precedes or
replaces the hand-over).''',
 'inter-procedural value tracking across the worker boundary (argument position, width, identity)',
 'A table of the public wrappers and the system call each stands for; all paths of both sides.')

prop('P15', 'Timers fire once when due, in order, and are released exactly once',
'''A timer made by events_actor(loop, ms, cb, args) is put into that loop's list, which is kept in the order of the times: the
clock plus ms milliseconds, without overflow, whatever ms. Every turn of the loop that does not fail fires the first timer if it
is due; none fires before its time. A timer that fires is first taken out of the list, then its callback is called once with the
timer and its args; afterwards it is released, once, unless events_repeat_actor marked it as repeating, in which case it is kept.
events_repeat_actor puts the same timer, with its callback, args and loop, back with its new time; events_clear_actor removes
the mark. The number of active timers, which keeps the loop running, goes up with each new timer and down with each released
one, and by nothing else.''',
['inputs', 'schedules', 'histories'],
'any number of timers, any times (equal, past, beyond 35 minutes), any sequence of repeating and clearing inside callbacks',
'''Ordering, counting and release errors need particular sequences (equal times, repeats after later timers, long times); the
tests arm a few short timers.''',
['src/events.c', 'src/events_internal.h'],
[('arming', 'src/events.c: events_actor, events_repeat_actor, events_clear_actor'), ('firing', 'src/events.c: events_execute')],
'''The list analysis of P05 on every function that links or unlinks a timer, plus: fire (typestate of an unlinked timer: due by
the clock, callback once with the timer and its args, then the flag is read, then released or kept; no use after release),
count (net change of active_timers on every path = timers inserted anew minus released), sorted (loop invariant of the search),
alarm (linear form and width), init (fields of the inserted timer at every return), turn (every non-failing return has fired one
or is under a test that the head is null or not due).''',
'shape analysis and typestate on IR paths',
'All paths of all functions that touch the list or the count. The clock is assumed not to fail. A callback that does not repeat a timer again must clear it (the API\'s convention).')

prop('P13', 'Descriptor callbacks: registration, exact events, each delivered exactly once',
'''A descriptor that was not registered is registered by events_add as a whole or not at all: on success its record has the loop,
the callback and its argument, the kernel was asked for exactly the wanted events (readable, writable, both, or a watched path),
the timeout is set and the loop's count of active descriptors is one higher; on failure nothing stays registered or counted.
events_set_event changes the kernel's set to exactly the new events; events_del takes registration, timeout and count back. For
every descriptor the kernel reports in one turn of the loop: if it is registered with this loop and waited for, its callback is
called exactly once with the descriptor, what happened (EVENTS_READ when readable, EVENTS_WRITE when writable, EVENTS_CLOSED on
hang-up or error, which includes the bit of EVENTS_READ; each if and only if reported) and its argument; if it is not, the callback is not called and the kernel stops
reporting it. No reported descriptor is skipped because of another. Queries and setters of a registered descriptor report and
change exactly what they name. async_wait registers the running task before it gives up control, and the task is made runnable
exactly once when the descriptor is ready.''',
['inputs', 'schedules', 'faults'],
'every combination of wanted and reported events, any order of registrations and removals (also inside callbacks), failing epoll calls',
'''The tests watch a few descriptors for one event each; error and hang-up events, stale descriptors in one batch, changes from one
set of events to another and failing registrations do not happen in them.''',
['src/epoll.c', 'src/events.c'],
[('kernel set', 'src/epoll.c: events_update_internal'), ('dispatch', 'src/epoll.c: events_poll_once_internal'),
 ('records', 'src/events.c: events_add, events_del, events_set_event and the queries')],
'''Conditional constant propagation with memory tracking (analyzer/track.py), run once for every combination of the bits involved:
update (which epoll_ctl with which mask on every path), dispatch (per reported mask and wanted mask: calls of the callback, their
arguments, removal of the stale, and that the loop goes on to the next report after each), add, del (state of record, timeout and
count at every return, by its result), count (no other function changes the counts), access, wait.''',
'path-sensitive constant propagation over all event-mask combinations; effect rules',
'Linux backend. The descriptor is not registered when events_add is called, and signal numbers are not also descriptors in use (they share the record table).')

prop('P14', 'Descriptor timeouts: one slot per descriptor, never early, none lost',
'''A registered descriptor has at most one timeout. events_set_timeout(fd, secs) takes back the previous one completely and, when secs
is not 0, puts the descriptor, and no other, into the slot of now + secs (timeouts beyond the wheel go into its last slot). Every turn
of the loop that does not fail looks, with the time after the wait, at every slot that has passed, one after the other: the callback
of each descriptor in it that is still registered and still has that timeout is called once with the descriptor, EVENTS_TIMEOUT and its
argument, never before its time, and after the descriptor left the slot, so that the callback may set a new timeout; a descriptor
that an earlier callback removed, or gave another timeout, is left alone. Slots that were looked at are empty. A loop made by
events_create(max_timeout) has slots that cover max_timeout seconds and room for every descriptor.''',
['inputs', 'schedules', 'histories'],
'every descriptor number, any sequence of setting, changing and clearing timeouts (also inside callbacks), any number of seconds',
'''The tests use one or two small descriptors with one timeout each; bit positions of large descriptor numbers, neighbours in one word,
wrapping around the wheel and timeouts changed inside timeout callbacks are never exercised.''',
['src/events.c', 'src/epoll.c'],
[('setting', 'src/events.c: events_set_timeout'), ('firing', 'src/events.c: events_handle_timeout_internal'),
 ('space', 'src/events.c: events_init_loop_internal, events_init')],
'''Rules arm (constant propagation with the descriptor as 256*q + c, q unknown, for all 256 residues c, so that every word index, bit
position and summary bit is exact for every descriptor; the slot is compared as a linear form), fire (facts and record state at the
call of the callback; relation between round, word, bit and descriptor number in the scan loops; clearing; slot and time advance
together), turn, space (sizes for all residues of the number of descriptors; resolution for every longest timeout up to 700 s),
only (no other writer).''',
'congruence-domain constant propagation, loop induction forms, effect rules',
'secs >= 0, max_timeout > 0, a callback does not run the loop again. A way of scanning the bits whose form is not recognised is only checked for the facts at the call, not for completeness.')

prop('P23', 'datagrams are handed over whole, with their own sender, and answered to it',
'''udp_recv(fd) gives for each datagram of at least a byte it takes from that socket, if there is memory, a record of its own: its length, all its bytes in memory of their own, the sender's address whole in memory of its own, the socket,
its flags and a mark; nothing else keeps that record, so it stays valid until the task of udp_handler, which calls the handler with it once, has ended, and is then released once with its message and its
address, read or not; udp_message releases the two at most once. udp_send(packet) sends exactly the bytes asked for, with the packet's flags, to the sender of that packet, whatever has come in since; async_sendto to the
address in the socket's packet; always with the length of that kind of address (IPv4 or IPv6). udp_to has the socket send from then on with the flags
given to the address given: all of what async_parse_addr reads from the host and port str_parseip finds in it. A socket that async_socket, async_bind, async_connect or async_accept returns has no udp or unix record
left by an earlier socket with its number, and socket_is_udp and socket_is_uds say yes only for a socket whose record is there and bears the mark written for that kind.''',
 ['inputs', 'histories', 'schedules'], 'every datagram and sender, every order of receiving, handling and answering, every reuse of a descriptor number',
 '''The tests send one datagram and answer it at once: a reply to the wrong sender, a record used after it was released or a leaked message shows only with several in flight, a wrong length only with IPv6.''',
 ['src/async_udp.c', 'src/async_uds.c', 'src/async_io.c'],
 [('datagrams', 'src/async_udp.c: udp_recv, udp_send, async_sendto, udp_message, udp_client, udp_handler, udp_to, socket_is_udp'),
  ('sockets', 'src/async_io.c: async_socket, async_bind, async_connect, async_accept; src/async_uds.c: socket_is_uds')],
 '''Rules recv (all paths of udp_recv: value of every field of the record returned, the block copies that fill message and address with their source, size and room; no store or call makes the record reachable elsewhere), send (at every
sendto of the library: bytes, count, flags, address and the length against the family on that path), to (all paths of udp_to: what is parsed, from what text,
and that all of it is copied to where the record of that descriptor points), life (udp_message releases and marks together; the task function udp_handler starts arranges both releases before the one call of the handler),
kind (every path on which a new socket is returned has written both records; the two questions answer yes only behind the tests of record and mark; marks written equal marks looked for).''',
 'path-sensitive value tracking of the record, typestate of its release',
 'All paths of the functions named and every sendto. What an address string means, and records of sockets whose opening task has ended, are outside.')

prop('P32', 'whole files: copied, written, touched and read to the end, nothing twice',
'''fs_copyfile(source, destination) makes the destination new and empty and goes on until as many bytes as the source has were moved, each once and from the beginning, however few one call moves; it reports success only if no
call failed. fs_writefile(path, text) leaves the file with exactly the text, nothing of what was there before, and reports what the write reported, or a negative value when the file could not be opened or closed.
fs_touch makes a file that is not there, leaves the contents of one that is alone, and says whether that worked. fs_readfile(path) asks for exactly the file's size into a fresh zeroed block that has room for it and a terminator, and gives
that block back, or NULL when the file is empty or cannot be opened; fs_filesize is the size the system reports, or 0.''',
 ['inputs', 'faults'], 'every size of file, every way the system cuts a transfer short or fails it',
 '''Tests copy and write a few bytes to new files: transfers the system cuts up (more than 2 GiB), longer files that are overwritten, failures to open, and files that fill their block exactly are not among them.''',
 ['src/os_unix.c', 'src/async_io.c'],
 [('copy', 'src/os_unix.c: copyfile'), ('whole files', 'src/async_io.c: fs_writefile, fs_touch, fs_readfile, fs_filesize')],
 '''Rules copy (each function that calls sendfile in a loop: where the offset starts, who moves it afterwards, which file and which field bounds the loop, what is returned after a call that failed), write, touch, read (path-sensitive tracking of
descriptor, flags, length, block and its room as linear forms, result at every exit).''',
 'path-sensitive value tracking with linear arithmetic of sizes',
 'All paths of these functions; the offset handed to the system and the loop bound. Files that other processes change meanwhile, and what a single read or write delivers, are outside.')

prop('P10', 'Signals: one record each, the right callback, counted once, default put back',
'''A signal given to events_add(loop, sig, EVENTS_SIGNAL, ...) has one record in the table of signals: its own again when it is
registered again (with the new callback, argument and loop), otherwise a free one; when the handler cannot be installed the call
fails and neither record nor count changes. The handler stays installed for further signals and interrupted calls are gone on
with. When the signal arrives, the callback of its own record is called exactly once with the number, EVENTS_SIGNAL and its argument, while
all signals are blocked and the record is marked as running; the mark goes off afterwards; the next signal is handled the same way. A
signal without a callback sets events_got_signal, one with a callback leaves it as it was. events_del(sig) from within that callback empties the
record and puts the default action back. A registered signal counts once in active_signals of the loop it was registered with last,
and no longer once it is removed; registering and removing it leaves the descriptor of the same number alone. Each function that
blocks signals puts back exactly the mask it found, on every path and whatever other threads do. A destroyed loop is named by no
record any more.''',
['inputs', 'histories', 'schedules', 'faults'],
'any sequence of registering, arriving and removing of any signals, on any loops and threads; failing sigaction calls',
'''No test registers a signal; the second registration, removal in between, two loops and two threads need particular histories.''',
['src/os_unix.c', 'src/events.c'],
[('records', 'src/os_unix.c: events_add_signal, events_del_signal'), ('delivery', 'src/os_unix.c: events_sig_handler'),
 ('counting', 'src/events.c: events_add, events_del, events_deinit_loop_internal')],
'''What the paths know of each record (is its signal this one, is it free, was every record looked at: a loop counts only if each round
that goes on knows its record not to be the signal's) is tracked through the functions that search the table. Rules table and handler: the
record written or called is the one known; order of mask, mark, counter and call. default: stores and sigaction on every path.
mask: typestate of the saved mask, which must be local. counted: events_add with EVENTS_SIGNAL for a signal registered before
and not, and events_del, with all stores to counts and to the table of descriptors. only: who stores to the table; the release of a loop
needs every record seen not to name it.''',
 'path-sensitive typestate with search-loop knowledge; effect rules',
 'POSIX version. Two handlers running at once in different threads, and removal from outside the callback, are not claimed.')

prop('P18', 'Sockets: addresses read as written, sockets made for them and set up as a whole',
'''async_parse_addr accepts 'a.b.c.d:port', '[IPv6]:port', 'name:port', a number alone (that port on any IPv4 address; nothing may follow
the number) and 'x' with a socket path. It accepts an IPv4 address only with each number at most 255, and any port only at most 65535; what it
stores are the numbers written, in their order, in network order, and *ip_version is 4 or 6 as the family of the address, neither for a
path, and 0 when it refuses. A name is looked up whole, if it fits its room, with the port behind its colon. async_bind makes a stream socket, or a datagram socket for protocol 0, of the family of its address (AF_UNIX for
protocol -1 with a path), binds it to that address or path and port with its length (no address means any), notes the address, has a stream socket listen with the
backlog given, and gives it, non-blocking, only if both worked; otherwise it gives -1. async_socket does the
same for an address already read (it does not note it). async_connect makes its socket likewise, non-blocking before
it connects, to that address or path, waits until it is writable unless connecting failed at once (under way is no failure), and gives it exactly if it has a peer then; otherwise it gives -1
with the error the socket holds in errno, if it holds one. async_accept waits until the socket is readable, and makes what it accepts non-blocking, with
the address of the peer noted, no record of an earlier socket of that number, and the port of the peer at *port if asked and not of a path.''',
['inputs', 'faults'],
'all texts of addresses, ports, protocols and backlogs; every result of socket, bind, listen, connect, getpeername and accept',
'''The tests use 127.0.0.1 with good ports only; IPv6, all interfaces, numbers out of range, a refused listen and connections that fail late need
particular input or faults.''',
['src/async_io.c'],
[('reading', 'src/async_io.c: async_parse_addr'), ('binding', 'src/async_io.c: async_bind, async_socket'),
 ('connecting', 'src/async_io.c: async_connect'), ('accepting', 'src/async_io.c: async_accept')],
'''Every path of the four functions, with what the calls gave on it. parse: at each accepting return, the scan that matched, the places it filled and
the bounds known of them against what was put in network order and stored. bind and connect, once per protocol: the family given to socket, the
length and the address given to bind or connect, the results known at each return, non-blocking before connect, SO_ERROR carried to errno.
accept: the peer's address, record, mode and port.''',
 'path-sensitive typestate of sockets and value flow of scanned numbers',
 'POSIX version. A decimal number beyond 32 bits is read as the C library scans it. Names are looked up by the C library; async_listener and TLS sockets are not claimed.')

prop('P22', 'Child processes: launched as asked, waited for and told once, nothing left open',
'''A child process never returns into its parent's work nor writes its parent's memory: it runs the program, or ends with status 255, and only because something failed. Before that it
makes its input, output and error the ends noted in its record where these are set: for spawn the reading end of the input pipe and the writing ends of the others, else the
files given to exec_info; when spawned it closes the ends its parent keeps; it begins a session of its own exactly if detached, and works in the
directory noted. The program gets its name and then the text of arguments, split at its commas,
and the environment given to exec_info in "K=V;" form, or that of the parent. exec_info gives NULL without room for a record. exec gives the child's
record only when there is a child; otherwise it gives -1 and releases the record. exec_wait gives 0 only if the child has ended, with its exit code or
minus the signal that ended it, or if it is detached; it then releases the record of a child that ended and closes no other descriptor. While
the child runs and the timeout is 0 it gives -1 with ETIMEDOUT at once; an interrupted wait is repeated. spawn launches its child with all its pipes, non-blocking, or not
at all, releasing what it had made. It waits without blocking other tasks, then stops watching and closes all ends of the pipes, and calls exit_func
once with that status, never before the end. exec_addenv puts each variable as "K=V;" behind those before, whole, with
room for the end of the text, and adds their length to *size.''',
['inputs', 'schedules', 'faults'],
'all programs, argument texts, environments and ends; every way a child ends; every failure of pipe2, vfork, dup2, chdir, execve and waitid',
'''The tests spawn one child that ends well. Failed launches, ends by signals, interrupted waits and descriptors that happen to be numbered like a process
need faults and timing no test arranges.''',
['src/os_unix.c', 'src/async_io.c'],
[('child and launch', 'src/os_unix.c: os_exec_info, exec, exec_info'), ('wait', 'src/os_unix.c: exec_wait, os_close'),
 ('spawn', 'src/async_io.c: spawn_ex, spawning, spawn_close'), ('environment', 'src/async_io.c: exec_addenv')],
'''Every path of these functions. child: the side of vfork known to be 0 reaches only execve or _exit, with the ends known to be set put in place, and
stores nothing. launch, args: what is given with the result of vfork known; the array and texts passed to execve. wait: the state of the siginfo
record and the results of waitid at each return. told, pipes: typestate of the six ends, the watch, and the status through spawning and spawn_ex.
environment: the size asked for against the bytes written, as linear forms.''',
 'path-sensitive typestate of descriptors and child records',
 'POSIX version. That all output is delivered before the end is told is not claimed; exec_wait with a timeout that is not 0 waits for the end.')

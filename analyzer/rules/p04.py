"""P04: I/O of a task suspends only that task, until its descriptor is ready."""
from rules.common import *

READ, WRITE = 1, 2
#: operation -> (direction, index of the descriptor operand)
OPS = {'read': 'r', 'os_read': 'r', 'recv': 'r', 'recvfrom': 'r', 'recvmsg': 'r', 'accept': 'r', 'accept4': 'r',
       'write': 'w', 'os_write': 'w', 'send': 'w', 'sendto': 'w', 'sendmsg': 'w', 'connect': 'w'}
EAGAIN = ('int', 11)


def opname(i):
    n = name(i)
    return n if n in OPS else None


def waker(R):
    R.rule('waker', 'a task that waits for a descriptor registers, before it is switched away, a callback for exactly that '
                    'descriptor and direction on its own thread\'s loop that names the task itself; it is switched '
                    'away only if that succeeded; the callback queues the task exactly once and unregisters')
    m = R.prog.std()
    fn = m.fn('async_wait')
    R.saw(fn)
    cbs = set()

    # state: (direction asked, registered: None | 'try' | True | False, switched)
    def step(s, i, w):
        d, reg, sw = s
        n = name(i)
        if n == 'events_add':
            a = [w.val(o) for o in i.ops]
            bits = a[2]
            want = {114: READ, 119: WRITE}.get(d)
            if reg:
                R.bad(fn, i.where(), 'the descriptor is registered twice', w.trace())
            if not val_field(a[0], 'loop') or a[0][1][1] != ('call', '__thrd', ''):
                R.bad(fn, i.where(), 'the wait is registered on a loop that is not the running thread\'s own', w.trace())
            if a[1] != ('arg', 0):
                R.bad(fn, i.where(), 'another descriptor than the one asked for is watched', w.trace())
            b = bits_of(bits)
            if want is not None and (b is None or not b & want or b & (READ | WRITE) & ~want):
                R.bad(fn, i.where(), 'the wrong direction is watched', w.trace())
            if not (val_field(a[5], 'running') and a[5][1][1] == ('call', '__thrd', '')):
                R.bad(fn, i.where(), 'what is woken later is not the running task', w.trace())
            if a[4][0] == 'g':
                cbs.add(a[4][1])
            else:
                R.bad(fn, i.where(), 'the callback is not a known function', w.trace())
            if sw:
                R.bad(fn, i.where(), 'the task is switched away before its wake-up is registered', w.trace())
            return (d, i.dest or 'none', sw)
        if n == 'task_switch':
            if not reg:
                R.bad(fn, i.where(), 'the task is switched away without a registered wake-up', w.trace())
            elif reg is not True:
                R.bad(fn, i.where(), 'the task is switched away although registering its wake-up may have failed', w.trace())
            else:
                R.ok('async_wait: switch %s' % i.where())
            if sw:
                R.bad(fn, i.where(), 'the task is switched away twice for one wake-up', w.trace())
            return (d, reg, True)
        if n in ('suspend', 'task_suspend'):
            R.bad(fn, i.where(), 'a waiting task is put back in the run queue', w.trace())
        return s

    def edge(s, key, pol, i, w):
        d, reg, sw = s
        if key[0] == 'eq' and key[1] == ('arg', 1) and key[2][0] == 'int' and pol:
            d = key[2][1]
        r = truth(key, pol, lambda e: e[0] == 'call' and e[1] == 'events_add')
        if r is None and key[0] == 'lt' and key[2][0] == 'call' and key[2][1] == 'events_add' and key[3] == ('int', 0):
            r = pol
        if r is not None and reg:
            reg = False if r else True
        return (d, reg, sw)

    def ex(s, t, w):
        d, reg, sw = s
        if reg is True and not sw:
            R.bad(fn, t.where(), 'a registered waiter goes on without being switched away', w.trace())
        elif reg is None:
            R.bad(fn, t.where(), 'a waiter returns without having waited', w.trace())
        else:
            R.ok('async_wait: exit')
    Walker(fn, step, edge=edge, exit=ex, all_phis=True).run((None, None, False))
    R.floor(len(cbs), 1, 'wake-up callbacks')

    for c in sorted(cbs):
        fn = m.fn(c)
        R.saw(fn)
        task = ('arg', 2)

        # state: (times queued, times unregistered, ready set)
        def step(s, i, w, fn=fn):
            q, d, rdy = s
            e = enq(i, w)
            if e:
                if not is_list(e[0], 'run_queue'):
                    R.bad(fn, i.where(), 'the woken task is put in a list that is not its thread\'s run queue', w.trace())
                if e[1] != task:
                    R.bad(fn, i.where(), 'a task other than the one that waited is woken', w.trace())
                return (q + 1, d, rdy)
            if name(i) == 'events_del':
                if w.val(i.ops[0]) != ('arg', 0):
                    R.bad(fn, i.where(), 'another descriptor than the one that became ready is unregistered', w.trace())
                return (q, d + 1, rdy)
            a, v = store(i, w)
            if a and field_of(a, 'ready') and a[1] == task:
                rdy = v != ('int', 0)
            return (q, d, rdy)

        def ex(s, t, w, fn=fn):
            q, d, rdy = s
            if q != 1:
                R.bad(fn, t.where(), 'a task whose descriptor became ready is queued %s' %
                      ('twice' if q else 'not at all'), w.trace())
            elif d != 1:
                R.bad(fn, t.where(), 'the descriptor of a woken task stays registered' if d == 0 else
                      'the descriptor of a woken task is unregistered twice', w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, exit=ex).run((0, 0, False))


def bits_of(e):
    if e[0] == 'int':
        return e[1]
    if e[0] == 'bin' and e[1] == 'or':
        a, b = bits_of(e[2]), bits_of(e[3])
        return None if a is None or b is None else a | b
    return None


#: what tasks do I/O with: judged whether it still waits or not
PUBLIC = ('async_read', 'async_read2', 'async_write', 'async_sendto', 'udp_send', 'async_recvfrom', 'udp_recv',
          'async_accept')


def io_functions(m):
    fns = {fn.name: fn for fn in callers(m, 'async_wait')}
    for n in PUBLIC:
        if n in m.fns:
            fns[n] = m.fn(n)
    for fn in fns.values():
        if any(opname(i) for i in fn.instrs()):
            yield fn


def failing(key, pol, dest):
    """does the literal say that the operation's result is negative (True/False), or -1"""
    isr = lambda e: e[0] == 'call' and e[2] == dest
    if key[0] == 'lt' and key[1] == 's' and isr(key[2]) and key[3] == ('int', 0):
        return pol
    if key[0] == 'eq' and isr(key[1]) and key[2] == ('int', -1):
        return pol
    if key[0] == 'lt' and key[1] == 's' and isr(key[2]) and key[3] == ('int', 1):
        return None if pol else False
    return None


ONCE = {'accept', 'accept4', 'connect', 'getpeername'}


def retry(R):
    R.rule('retry', 'read/receive/write/send of a task: when the operation would block the task waits for the same '
                    'descriptor in the right direction and repeats the same operation; any other result ends it and is '
                    'what the caller gets; no operation is repeated without waiting')
    m = R.prog.std()
    nf = 0
    for fn in io_functions(m):
        R.saw(fn)
        nf += 1
        ops = [i for i in fn.instrs() if opname(i)]
        loops = {i.dest for i in ops if name(i) not in ONCE}
        first_wait = not loops or None

        # state: (op dest, op name, args, m<0, EAGAIN, waited(fd,dir) since)
        def step(s, i, w, fn=fn):
            op, neg, again, waited = s
            n = opname(i)
            if name(i) == 'async_wait':
                fd, d = w.val(i.ops[0]), w.val(i.ops[1])
                if d not in (('int', 114), ('int', 119)):
                    R.bad(fn, i.where(), 'the direction to wait for is neither reading nor writing', w.trace())
                    return (op, neg, again, (fd, None))
                dr = chr(d[1])
                if op and OPS[op[1]] != dr:
                    R.bad(fn, i.where(), 'waits for the wrong direction after %s()' % op[1], w.trace())
                if op and not same_fd(op[2][0], fd):
                    R.bad(fn, i.where(), 'waits for another descriptor than the one that would block', w.trace())
                if op and op[1] not in ONCE and not (neg is True and again is True):
                    R.bad(fn, i.where(), 'the task is suspended although %s() did not report that it would block' % op[1], w.trace())
                return (op, neg, again, (fd, dr))
            if n:
                a = tuple(w.val(o) for o in i.ops)
                if waited:
                    if waited[1] != OPS[n]:
                        R.bad(fn, i.where(), '%s() after waiting for the wrong direction' % n, w.trace())
                    if not same_fd(a[0], waited[0]):
                        R.bad(fn, i.where(), '%s() on another descriptor than the one waited for' % n, w.trace())
                if n == 'accept' and not waited:
                    R.bad(fn, i.where(), 'accept() without waiting first blocks the thread or fails', w.trace())
                if op and op[1] == n and n not in ONCE:
                    if neg is True and again is True and not waited:
                        R.bad(fn, i.where(), '%s() is repeated without letting other tasks run' % n, w.trace())
                    if neg is True and again is False:
                        R.bad(fn, i.where(), '%s() is repeated after an error that is not "would block"' % n, w.trace())
                    if neg is True and again is True and op[2] != a:
                        R.bad(fn, i.where(), '%s() is repeated with other arguments' % n, w.trace())
                    if neg is True and again is None:
                        R.bad(fn, i.where(), '%s() is repeated without looking at why it failed' % n, w.trace())
                R.ok('%s: %s at %s' % (fn.name, n, i.where()))
                return ((i.dest, n, a), None, None, None)
            return s

        def edge(s, key, pol, i, w):
            op, neg, again, waited = s
            if not op or waited:
                return s
            f = failing(key, pol, op[0])
            if f is not None:
                neg = f
            r = eqlit(key, pol, lambda e: e[0] == 'call' and e[1] == 'os_geterror' or
                      (e[0] == 'load' and e[1][0] == 'call' and e[1][1] == '__errno_location'), EAGAIN)
            if r is not None:
                again = r
            return (op, neg, again, waited)

        def ex(s, t, w, fn=fn):
            op, neg, again, waited = s
            if not op or op[1] in ONCE:
                return
            if neg is True and again is True:
                R.bad(fn, t.where(), '%s() would block and the task gives up' % op[1], w.trace())
            elif neg is True and again is None:
                R.bad(fn, t.where(), '%s() failed and whether it would block is not considered' % op[1], w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((None, None, None, None))
    R.floor(nf, 6, 'functions that wait for a descriptor around an operation')


def same_fd(a, b):
    return a == b or strip_fd(a) == strip_fd(b)


def strip_fd(e):
    while e[0] == 'call' and e[1] in ('socket2fd', 'fd2socket'):
        return e
    return e


def result(R):
    R.rule('result', 'the byte count or error of the last operation is what the caller gets; a write goes on exactly where '
                     'the last one stopped, with exactly the rest, until nothing is left, nothing more is accepted, or it fails')
    m = R.prog.std()
    for pub, shape in (('async_read', 'one'), ('async_read2', 'one'), ('async_sendto', 'one'), ('udp_send', 'one'),
                       ('async_recvfrom', 'one'), ('async_write', 'all')):
        fn = m.fn(pub)
        R.saw(fn)
        ops = [i for i in fn.instrs() if opname(i) and name(i) not in ONCE]
        if not ops:
            R.bad(fn, fn.name, '%s() no longer performs any operation' % pub)
            continue
        if shape == 'one':
            def step(s, i, w):
                return (i.dest, tuple(w.val(o) for o in i.ops)) if i in ops else s

            def ex(s, t, w, fn=fn):
                v = w.rawval(t.ops[0])
                if not s or v[0] != 'call' or v[2] != s[0]:
                    R.bad(fn, t.where(), 'the caller does not get the result of the operation', w.trace())
                else:
                    R.ok('%s: exit' % fn.name)
                if s and pub != 'udp_send':
                    if s[1][0] != ('arg', 0) or s[1][1] != ('arg', 1) or s[1][2] != ('arg', 2):
                        R.bad(fn, t.where(), 'the operation is not done with the caller\'s descriptor, buffer and size', w.trace())
                elif s and (s[1][1] != ('arg', 1) or s[1][2] != ('arg', 2)):
                    R.bad(fn, t.where(), 'the operation is not done with the caller\'s buffer and size', w.trace())
            Walker(fn, step, exit=ex, all_phis=True).run(())
            continue
        heads = loop_headers(fn)
        for op in ops:
            whole(R, m, fn, op, heads)


def whole(R, m, fn, op, heads):
    res = ('call', name(op), op.dest)
    hphis = {i.dest: i for b in fn.order if b.name in heads for i in b.ins if i.op == 'phi'}
    A, L = fn.ex(op.ops[1]), fn.ex(op.ops[2])
    if fn.ex(op.ops[0]) != ('arg', 0):
        R.bad(fn, op.where(), 'the operation is not done on the caller\'s descriptor')
    dom = dominators(fn)
    used = {x[1] for e in (A, L) for x in walk(e) if x[0] == 'phi'} & set(hphis)
    if not used:
        R.bad(fn, op.where(), 'a partial write is not continued')
        return
    # header phis grow transitively (nested loops pass them through)
    more = True
    while more:
        more = False
        for p in list(used):
            for v, b in hphis[p].attr['inc']:
                for e, _ in phi_values(fn, fn.ex(v), set(hphis)):
                    for x in walk(e):
                        if x[0] == 'phi' and x[1] in hphis and x[1] not in used:
                            used.add(x[1])
                            more = True
    # joint assignments: along each edge into a header, all its phis move together
    def sub(e, mp):
        return sub_expr(e, lambda y: mp.get(y[1]) if y[0] == 'phi' else None)

    def move(block, pred, e):
        mp = {}
        for i in fn.blocks[block].ins:
            if i.op == 'phi' and i.dest in used:
                for v, b in i.attr['inc']:
                    if b == pred:
                        mp[i.dest] = fn.ex(v)
        return mp
    progress = False
    for h in sorted({b.name for b in fn.order if b.name in heads and any(i.op == 'phi' and i.dest in used for i in b.ins)}):
        for p in fn.blocks[h].pred:
            pn = getattr(p, 'name', p)
            mp = move(h, pn, None)
            pair = ('pair', sub(A, mp), sub(L, mp))
            for alt, ch in phi_values(fn, ('bin', 'pair', pair[1], pair[2]), set(hphis)):
                a, l = plin(m, alt[2]), lin(alt[3])
                if h in dom[pn]:            # back edge
                    da = lsub(a, plin(m, A))
                    dl = lsub(l, lin(L))
                    if da == ({}, 0) and dl == ({}, 0):
                        continue
                    if da == ({res: 1}, 0) and dl == ({res: -1}, 0):
                        progress = True
                        R.ok('%s: continues at %s' % (fn.name, op.where()))
                        continue
                    R.bad(fn, op.where(), 'a partial write is not continued exactly where it stopped with exactly the rest')
                else:
                    # entry: outer header phis may still appear (nested loop): their identity means "unchanged"
                    if any(x[0] == 'phi' for t in list(a[0]) + list(l[0]) for x in walk(t)):
                        if lsub(a, plin(m, A)) == ({}, 0) and lsub(l, lin(L)) == ({}, 0):
                            continue
                    if a != ({('arg', 1): 1}, 0) or l != ({('arg', 2): 1}, 0):
                        R.bad(fn, op.where(), 'the write does not start with the caller\'s whole buffer')
    if not progress:
        R.bad(fn, op.where(), 'a partial write is not continued')

    # exits: total reported
    isres = lambda e: e == res

    def step(s, i, w):
        return (True, None, None, None) if i is op else s

    def edge(s, key, pol, i, w):
        did, neg, zero, rest = s
        f = failing(key, pol, op.dest)
        if f is not None:
            neg = f
        if key[0] == 'lt' and isres(key[2]) and key[3] == ('int', 1) and pol:
            neg = 'le'
        r = truth(key, pol, isres) if key[0] == 'eq' else None
        if r is not None:
            zero = not r
            neg = False if not r else True if neg == 'le' else neg
        k, sg, r, c = litlin(key)
        # literal about the rest: (anything) < (anything) with difference +-L
        Lf = lin(L)
        if k == 'lt' and sg == 's':
            if ({t: -x for t, x in Lf[0].items()}, -Lf[1]) in ((r, c),) :   # 0 < L
                rest = pol
            elif (r, c + 1) == Lf or (r, c) == (Lf[0], Lf[1] - 1):             # L < 1
                rest = not pol
            elif (r, c) == Lf:                                             # L < 0
                rest = None if not pol else False
        return (did, neg, zero, rest)

    def ex(s, t, w):
        did, neg, zero, rest = s
        v = fn.ex(t.ops[0])
        alts = [e for e, _ in phi_values(fn, v, set(hphis))]
        total = lsub(plin(m, A), ({('arg', 1): 1}, 0))
        for e in alts:
            if e == res:
                continue
            le = lin(e)
            if le == total or lsub(le, total) == ({res: 1}, 0):
                continue
            le = lsub(({('arg', 2): 1}, 0), lin(L))
            if lsub(lin(e), le) in (({}, 0), ({res: 1}, 0)):
                continue
            R.bad(fn, t.where(), 'the caller is told something else than the bytes written or the error', w.trace())
        rv = w.rawval(t.ops[0])
        if did and neg is True and rv != res:
            R.bad(fn, t.where(), 'a failed write is not reported as such', w.trace())
        elif did and not (neg is True or zero is True or rest is False):
            R.bad(fn, t.where(), 'the write ends although bytes are left', w.trace())
        else:
            R.ok('%s: exit' % fn.name)
    Walker(fn, step, edge=edge, exit=ex).run((False, None, None, None))


def nonblocking(R):
    R.rule('nonblock', 'a socket handed to a task is in non-blocking mode, and is so before a connection is started on it; '
                       'setting the mode keeps the descriptor\'s other flags')
    m = R.prog.std()
    nf = 0
    for fn in funcs(m):
        src = {i.dest for i in fn.instrs() if name(i) in ('socket', 'accept', 'accept4')}
        if not src or not any(name(i) in ('bind', 'listen', 'connect', 'async_wait') for i in fn.instrs()):
            continue
        nf += 1
        R.saw(fn)
        mine = lambda e: e[0] == 'call' and e[2] in src

        def step(s, i, w, fn=fn):
            if name(i) == 'events_set_nonblocking' and mine(w.rawval(i.ops[0])):
                return True
            if name(i) == 'connect' and mine(w.rawval(i.ops[0])):
                if not s:
                    R.bad(fn, i.where(), 'a connection is started on a blocking socket', w.trace())
                else:
                    R.ok('%s: connect' % fn.name)
            return s

        def ex(s, t, w, fn=fn):
            v = w.rawval(t.ops[0]) if t.ops else ('int', 0)
            if mine(v):
                R.check(s, fn, t.where(), 'a blocking socket is handed to a task', trace=w.trace())
        Walker(fn, step, exit=ex, all_phis=True).run(False)
    R.floor(nf, 4, 'functions that open a socket for a task')
    for pub, want in (('events_set_nonblocking', 2048), ('events_set_blocking', ~2048)):
        fn = m.fn(pub)
        R.saw(fn)
        good = False
        for i in fn.instrs():
            if name(i) != 'fcntl' and name(i) != 'fcntl64':
                continue
            a = [S(fn.ex(o)) for o in i.ops]
            if a[1] == ('int', 4):
                good = a[0] == ('arg', 0) and a[2][0] == 'bin' and a[2][1] == ('or' if want > 0 else 'and') and \
                    any(x[0] == 'int' and x[1] in (want, want & 0xffffffff) for x in a[2][2:]) and \
                    any(x[0] == 'call' and x[1] in ('fcntl', 'fcntl64') for x in a[2][2:])
                R.check(good, fn, i.where(), 'the descriptor\'s flags are not its old flags with non-blocking %s' %
                        ('set' if want > 0 else 'cleared'))
            elif a[1] == ('int', 3):
                R.check(a[0] == ('arg', 0), fn, i.where(), 'the flags of another descriptor are read')
        R.check(good, fn, fn.name, 'the blocking mode is not changed')


RULES = [waker, retry, result, nonblocking]

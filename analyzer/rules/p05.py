"""P05: the run and sleep queues of a thread."""
from rules.common import *
from lists import Lists, is_link, sh

ALARM = 'alarm_time'
CLOCK = {'events_timeofday', 'gettimeofday', 'clock_gettime'}
SWITCH = {'task_switch', 'suspend', 'coro_swap', 'task_yielding'}
AGAIN = {'yield', 'yield_active_info', 'delay', 'resume', 'yielding', 'sleep_task'}   # park or queue the running task themselves


def running(e):
    return e[0] == 'load' and thrd_field(e[1], 'running') or \
        e[0] == 'ld' and thrd_field(e[1], 'running') or e == ('call', 'active_task', '')


def lname(ls):
    if ls is None:
        return None
    while ls[0] in ('idx', 'load', 'ld'):
        ls = ls[1]
    return ls[3] if ls[0] == 'fld' else None


def linky(f):
    return any(i.op == 'store' and is_link(S(f.ex(i.ops[1]))) for i in f.instrs())


def when_src(fn, e):
    """time stamps an expression is made of: True when every alternative is the clock (or its failure value)"""
    ok = True
    for a, _ in phi_values(fn, e, loop_headers_set(fn)):
        t, c = lin(a)
        for x in t:
            if mentions(x, lambda y: y[0] == 'alloca' or y[0] == 'call' and y[1] in ('events_nsec', 'events_timeofday')):
                continue
            ok = False
        if c > 0:
            ok = False
    return ok


def loop_headers_set(fn):
    hs = loop_headers(fn)
    return {i.dest for b in fn.order if b.name in hs for i in b.ins if i.op == 'phi'}


def narrow_mul(fn, v, seen=None):
    """is the value scaled by a constant >= 1000 in less than 64 bits"""
    seen = seen if seen is not None else set()
    if v[0] != 'ssa' or v[1] in seen:
        return None
    seen.add(v[1])
    d = fn.defs.get(v[1])
    if d is None or d.op in ('load', 'call', 'alloca'):
        return None
    if d.op in ('mul', 'shl') and d.ty != 'i64':
        c = [o[1] for o in d.ops if o[0] == 'int']
        if c and (abs(c[0]) >= 1000 or d.op == 'shl'):
            return d
    if d.op == 'trunc' and d.attr.get('from') == 'i64':
        return d
    ops = [a for a, _ in d.attr['inc']] if d.op == 'phi' else d.ops
    for o in ops:
        r = narrow_mul(fn, o, seen)
        if r is not None:
            return r
    return None


def null_of(F, x):
    return True if x == ('int', 0) else (not F[x]) if x in F else None


def inner(fn, i):
    """blocks of the innermost loop around an instruction"""
    bn = next(b.name for b in fn.order if any(j is i for j in b.ins))
    ls = [n for n in (natural_loop(fn, h) for h in loop_headers(fn)) if bn in n]
    return min(ls, key=len) if ls else ()


def isf(x, c, f):
    return x[0] in ('load', 'ld') and x[1] == ('fld', c, None, f)


def due_fact(F, c, al=ALARM):
    """True: known due, False: known not due, None"""
    for k, v in F.items():
        if k[0] == 'lt':
            if isf(k[3], c, al):
                return (not v), k[2]
            if isf(k[2], c, al):
                return (v or None), k[3]
    return None, None


def halted(F, c):
    for k, v in F.items():
        if isf(k, c, 'halt'):
            return v
    return None


def one(R, fn, waker=False):
    hs = loop_headers_set(fn)
    SK = {}
    PEND = []
    WAKES = []

    def unfinished(W, V, i, w):
        R.cur = 'wake'
        if W is not None:
            R.bad(fn, i.where(), 'a task taken from the sleeping queue is not put into the run queue', w.trace())
        if V is not None:
            R.bad(fn, i.where(), 'a task waiting on a task that was woken is not put into the run queue', w.trace())

    def on_op(x, kind, ls, c, N, P, first, i, w, s):
        Q, M, C, O, T, Pq, A, W, V = x
        F, K = dict(s[3]), dict(s[1])
        R.cur = 'lists'
        R.ok('%s: %s at %s' % (fn.name, kind, i.where()))
        nm = lname(ls)
        if kind == 'unlink':
            src = lname(c[1]) if c[0] in ('ld', 'load') and c[1][0] == 'fld' and c[1][3] == 'head' else None
            if c[0] in ('ld', 'load') and c[1][0] == 'fld' and c[1][3] in ('head', 'tail', 'next', 'prev'):
                nm = lname(c[1][1]) if c[1][3] in ('head', 'tail') else nm
                if nm == 'run_queue':
                    R.cur = 'fifo'
                    if c[1][3] != 'head':
                        R.bad(fn, i.where(), 'a task is taken from the run queue that is not the first one', w.trace())
                    else:
                        R.ok('%s: take at %s' % (fn.name, i.where()))
                    if T is not None:
                        R.bad(fn, i.where(), 'a task taken from the run queue is dropped', w.trace())
                    T = c
                if nm == 'sleep_queue':
                    R.cur = 'wake'
                    if c[1][3] != 'head':
                        R.bad(fn, i.where(), 'the sleeping queue is not taken from its front', w.trace())
                    d, now = due_fact(F, c)
                    h = halted(F, c)
                    if not (d is True or h is True):
                        R.bad(fn, i.where(), 'a task is woken before its time', w.trace())
                    elif d is True and not when_src(fn, now):
                        R.bad(fn, i.where(), 'a wake-up time is compared with something else than the clock', w.trace())
                    else:
                        R.ok('%s: wake at %s' % (fn.name, i.where()))
                    unfinished(W, V, i, w)
                    W = V = c if h is not True else None
                    Pq = True
                    WAKES.append(i)
        elif nm == 'run_queue':
            R.cur = 'origin'
            if kind != 'append':
                R.bad(fn, i.where(), 'a task jumps the run queue', w.trace())
            if c in Q or (M and running(c)):
                R.bad(fn, i.where(), 'a task is queued twice', w.trace())
            if c == W:
                W = None
                R.cur = 'wake'
                if ('status', c) not in A:
                    R.bad(fn, i.where(), 'a woken task is still marked as sleeping', w.trace())
                R.cur = 'origin'
            ok = True
            if running(c):
                M = M or 'queued'
            elif c in s[4] or ('out', c) in C:
                pass
            elif c[0] in ('ld', 'load') and c[1][0] == 'fld' and c[1][3] == 'sleeping':
                if c[1][1] not in C:
                    O = O | {c[1][1]}
                if c[1][1] == V:
                    V = None
            elif c[0] == 'arg' or c[0] == 'call' or c[0] == 'phi':
                pass
            elif c[0] in ('ld', 'load') and (mentions(c, lambda y: y[0] == 'idx') or
                                             c[1][0] == 'fld' and c[1][3] in ('object', 'tasks')):
                # the tasks of a group run on other threads only when it is threaded; others were queued when made,
                # and those are queued once, before the first of them runs
                ok = ('threaded',) in A or not mentions(c, lambda y: y[0] == 'fld' and y[3] == 'group')
                ok = ok and not any(name(j) in SWITCH | AGAIN for b in inner(fn, i) for j in fn.blocks[b].ins)
            elif c[0] in ('ld', 'load') and c[1][0] in ('alloca', 'load'):
                pass
            else:
                ok = False
            if not ok:
                R.bad(fn, i.where(), 'a task is queued that may already be in a queue: %s' % sh(c), w.trace())
            else:
                R.ok('%s: queue %s at %s' % (fn.name, sh(c), i.where()))
            Q = Q | {c}
        elif nm == 'sleep_queue':
            R.cur = 'sorted'
            if running(c):
                if M:
                    R.bad(fn, i.where(), 'a task is put to sleep while it is %s' % M, w.trace())
                M = 'asleep'
                A = A | {('slept',)}
            when = dict(y[1:] for y in A if y[0] == 'alarm').get(c)
            if when is None:
                R.bad(fn, i.where(), 'a task is put to sleep without a wake-up time', w.trace())
            else:
                PEND.append((i.where(), N, P, when, s[3], w.trace()))
        return (Q, M, C, O, T, Pq, A, W, V)

    def step(x, i, w, s):
        Q, M, C, O, T, Pq, A, W, V = x
        F, K, E = dict(s[3]), dict(s[1]), dict(s[0])
        n = name(i)
        if i.dest and i.op in ('load', 'call') and (Q or C):
            # the value is read or computed anew
            again = lambda y: y[0] == 'ld' and y[2] == i.dest or y[0] == 'call' and y[2] == i.dest or \
                y[0] == 'load' and i.op == 'load' and y[1] == L.ev(fn.ex(i.ops[0]), E)
            Q = frozenset(y for y in Q if not mentions(y, again))
            C = frozenset(y for y in C if not mentions(y, again))
        if i.op == 'store':
            a = L.ev(fn.ex(i.ops[1]), E)
            v = L.ev(fn.ex(i.ops[0]), E)
            if a[0] == 'fld' and a[3] == 'sleeping':
                if v == ('int', 0):
                    C, O = C | {a[1]}, O - {a[1]}
                elif running(v):
                    R.cur = 'park'
                    if M:
                        R.bad(fn, i.where(), 'a task waits for a sleeper while it is %s' % M, w.trace())
                    M = 'parked'
                    R.ok('%s: park at %s' % (fn.name, i.where()))
            elif a[0] == 'fld' and a[3] == ALARM:
                R.cur = 'alarm'
                d = narrow_mul(fn, i.ops[0])
                R.check(d is None, fn, i.where(), 'the wake-up time is computed in less than 64 bits', None, w.trace())
                alarm_form(R, fn, i, v, w)
                A = frozenset(y for y in A if y[:2] != ('alarm', a[1])) | {('alarm', a[1], v)}
            elif a[0] == 'fld' and a[3] == 'status' and v[0] == 'int':
                A = frozenset(y for y in A if y != ('status', a[1]))
                if v[1] != SLEEPING:
                    A = A | {('status', a[1])}
        elif i.op == 'call':
            sw = n in SWITCH or n is None and False
            if n in SWITCH or n in AGAIN:
                if n in AGAIN and M:
                    R.cur = 'origin'
                    R.bad(fn, i.where(), 'a task that is %s is queued again by %s()' % (M, n), w.trace())
                unfinished(W, V, i, w)
                W = V = None
                if Pq:
                    R.cur = 'pass'
                    heads = [v for a, v in K.items() if a[3] == 'head' and lname(a[1]) == 'sleep_queue']
                    good = any(null_of(F, h) is True or due_fact(F, h)[0] is False for h in heads)
                    R.check(good, fn, i.where(), 'a pass over the sleeping queue ends although a task may be due',
                            '%s: pass ends before %s' % (fn.name, i.where()), w.trace())
                    Pq = False
                if waker:
                    Pq = True
                if n == 'task_switch' and T is not None:
                    R.cur = 'fifo'
                    v = L.ev(fn.ex(i.ops[0]), E)
                    if v == T:
                        R.ok('%s: run at %s' % (fn.name, i.where()))
                        T = None
                    elif running(v):
                        T = None
                Q, M, C = frozenset(), '', frozenset()
                A = A & {('threaded',), ('slept',)}
            if O:
                R.cur = 'origin'
                if n and not n.startswith('llvm.') and n not in w.pure:
                    R.bad(fn, i.where(), 'the wake-up recorded in a sleeper is used but not cleared', w.trace())
                    O = frozenset()
        return (Q, M, C, O, T, Pq, A, W, V)

    def edge(x, k, p, i, w, s):
        Q, M, C, O, T, Pq, A, W, V = x
        if k[0] == 'eq' and k[2] == ('int', 0) and val_field(k[1], 'threaded') and not p:
            A = A | {('threaded',)}
        if T is not None and k[0] == 'eq' and k[2] == ('int', 0) and isf(k[1], T, 'halt') and not p:
            T = None
        if T is not None and k[0] == 'eq' and k[2] == ('int', 0) and k[1] == T and p:
            return None
        if W is not None and k[0] == 'eq' and k[2] == ('int', 0) and isf(k[1], W, 'halt') and not p:
            W = V = None                        # it was ended: whoever owns it gives it back
        if V is not None and k[0] == 'eq' and k[2] == ('int', 0) and isf(k[1], V, 'sleeping') and p:
            V = None
        if k[0] in ('eq', 'lt') and mentions(k, lambda y: y[0] == 'call' and y[1] in CLOCK) and \
                (k[0] == 'eq' and k[2] == ('int', 0) and not p or k[0] == 'lt' and k[3] == ('int', 0) and p):
            return None                         # the clock answers
        return (Q, M, C, O, T, Pq, A, W, V)

    def ex(x, t, w, s):
        Q, M, C, O, T, Pq, A, W, V = x
        R.cur = 'park'
        if fn.name == 'delay' and ('slept',) not in A:
            R.bad(fn, t.where(), 'delay() returns without having put the task to sleep', w.trace())
        if M:
            R.bad(fn, t.where(), 'a task is %s but goes on running' % M, w.trace())
        if O:
            R.cur = 'origin'
            R.bad(fn, t.where(), 'the wake-up recorded in a sleeper is used but not cleared', w.trace())
        if T is not None:
            R.cur = 'fifo'
            R.bad(fn, t.where(), 'a task taken from the run queue is dropped', w.trace())
        unfinished(W, V, t, w)

    def phi(x, ph, frm, w, s, ev):
        Q, M, C, O, T, Pq, A, W, V = x
        ds = {i.dest for i in ph}
        new = lambda y: y[0] == 'phi' and y[1] in ds
        Q = frozenset(y for y in Q if not mentions(y, new))
        C = frozenset(y for y in C if not mentions(y, new))
        x = (Q, M, C, O, T, Pq, A, W, V)
        skipped(fn, SK, ph, frm, s, ev)
        return x

    L = Lists(fn, _Sub(R, 'lists'), on_op, step=step, edge=edge, exit=ex, phi=phi,
              extra=(frozenset(), '', frozenset(), frozenset(), None, False, frozenset(), None, None))
    L.run()
    if WAKES and not waker:
        return one(R, fn, True)                 # every turn of the waker looks at the sleeping queue
    R.cur = 'sorted'
    whens = {x[3] for x in PEND}
    for wh, N, P, when, F, tr in PEND:
        R.check(place_ok(fn, dict(F), N, when, whens, SK), fn, wh,
                'the sleeping queue is not kept in the order of the wake-up times', '%s: sleep at %s' % (fn.name, wh), tr)
    return L


def skipped(fn, SK, ph, frm, s, ev, al=ALARM):
    """going round a search for the place: which times are known not to be before the task passed over"""
    for i in ph:
        for v, b in i.attr['inc']:
            e = fn.ex(v)
            if b != frm or not (e[0] == 'load' and e[1][0] == 'fld' and e[1][3] == 'next'
                                and e[1][1] == ('phi', i.dest)):
                continue
            cur = ev(('ssa', i.dest))
            SK.setdefault(i.dest, []).append({
                k[3] if isf(k[2], cur, al) else k[2] for k, q in s[3]
                if k[0] == 'lt' and (isf(k[2], cur, al) and q or isf(k[3], cur, al) and not q)})


def place_ok(fn, F, N, when, whens, SK, al=ALARM):
    """N (the successor, or null) was reached from the front over tasks that wake no later, and wakes no earlier"""
    if N != ('int', 0) and null_of(F, N) is not True:
        if not any(k[0] == 'lt' and (isf(k[2], N, al) and k[3] == when and not q or
                                     isf(k[3], N, al) and k[2] == when and q) for k, q in F.items()):
            return False
    if N[0] in ('ld', 'load') and N[1][0] == 'fld' and N[1][3] == 'head':
        return True
    phis = [i for i in fn.instrs() if i.op == 'phi' and i.dest in SK]
    if N[0] == 'phi':
        phis = [i for i in phis if i.dest == N[1]]
    good = False
    for i in phis:
        ins = [fn.ex(v) for v, b in i.attr['inc']]
        heads = [e for e in ins if e[0] == 'load' and e[1][0] == 'fld' and e[1][3] == 'head']
        nexts = [e for e in ins if e[0] == 'load' and e[1][0] == 'fld' and e[1][3] == 'next' and e[1][1] == ('phi', i.dest)]
        if len(heads) + len(nexts) != len(ins) or not heads:
            continue
        if all(k & whens for k in SK[i.dest]):
            good = True
        else:
            return False
    return good


class _Sub:
    def __init__(self, R, rule):
        self.R, self.rule = R, rule

    def bad(self, fn, where, msg, tr=()):
        self.R.cur = self.rule
        self.R.bad(fn, where, msg, tr)


def alarm_form(R, fn, i, v, w):
    """clock + 1000000 * the milliseconds asked for"""
    bad = None
    for a, _ in phi_values(fn, v, loop_headers_set(fn)):
        t, c = lin(a)
        ms = [(x, k) for x, k in t.items() if mentions(x, lambda y: y[0] == 'arg') and not mentions(x, lambda y: y[0] == 'alloca')]
        ck = [(x, k) for x, k in t.items() if (x, k) not in ms]
        if c not in (0, -1) or len(ms) != 1 or ms[0][1] != 1000000 or ms[0][0][0] != 'arg':
            bad = 'the wake-up time is not the clock plus the time asked for'
    if bad:
        R.bad(fn, i.where(), bad, w.trace())
    else:
        R.ok('%s: alarm at %s' % (fn.name, i.where()))


def narrow_tests(R, m, al=ALARM):
    R.cur = 'alarm'
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'icmp' and i.attr['ty'] != 'i64' or i.op == 'trunc':
                for o in i.ops:
                    while o[0] == 'ssa' and o[1] in fn.defs and fn.defs[o[1]].op in ('trunc', 'zext', 'sext', 'sub', 'add'):
                        o = fn.defs[o[1]].ops[0]
                    if val_field(fn.ex(o), al):
                        R.bad(fn, i.where(), 'a wake-up time is compared in less than 64 bits')


def queues(R):
    for k, t in TEXT:
        R.rule(k, t)
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        if linky(fn):
            n += 1
            R.saw(fn)
            one(R, fn)
    R.cur = 'lists'
    R.floor(n, 3, 'functions that link tasks or timers')
    narrow_tests(R, m)
    for k in ('fifo', 'wake', 'sorted', 'alarm'):
        R.cur = k
        R.floor(R.rules[k]['obligations'], 1, 'sites')


TEXT = [
    ('lists', 'head/tail/next/prev of a task or timer list are only changed by complete operations (insert at the end, '
              'insert before a node, unlink) and nothing is left half linked when control leaves or calls out'),
    ('fifo', 'a task leaves the run queue from its front, and is then run unless it was ended'),
    ('origin', 'what is put into the run queue is in no queue: the running task before it gives up the processor, a new '
               'task, one just unlinked, or one whose recorded wake-up is cleared with it'),
    ('park', 'a task that put itself to sleep, into the queue or on a sleeper gives up the processor next'),
    ('wake', 'a sleeping task is unlinked from the front, only when its time has come or it was ended, marked as no longer '
             'sleeping and put into the run queue'),
    ('pass', 'a pass over the sleeping queue ends only when its first task is not due'),
    ('sorted', 'a task goes to sleep behind all that wake earlier and before all that wake later'),
    ('alarm', 'the wake-up time is the clock plus the milliseconds asked for, in 64 bits'),
]
RULES = [queues]

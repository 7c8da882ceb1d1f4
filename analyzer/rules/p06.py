"""P06: how long a thread goes on: the count of its tasks, and of those asleep."""
from rules.common import *
from flow import *
from track import Track, root
from lists import Lists
from rules.p05 import lname

THRD = ('call', '__thrd', '')
COUNT = ('fld', THRD, None, 'task_count')
SLEEPERS = ('fld', THRD, None, 'sleep_count')
WATCHED = 'events_fsevents_tasks'
FIELDS = {'head', 'task_count', 'sleep_count', 'taken', 'system', 'halt', 'status', 'running'}
SUSPENDED = 3
SWITCHES = {'task_switch', 'suspend', 'coro_swap', 'task_yielding', 'yield', 'resume', 'delay', 'async_wait'}
QUIET = {'events_free', 'is_data', 'is_ptr_usable', 'array', 'arrays', 'data_append', 'data_remove', 'atomic_spinlock_lock', 'atomic_spinlock_unlock',
         'tasks_info', 'active_info', 'create_task', 'events_nsec', 'task_name', 'data_size', 'deque_steal', 'tasks_create_result', 'enqueue_tasks',
         'data_reserve', 'data_lock', 'data_delete'}


def counts(i, fn, f):
    return i.op == 'store' and (lambda a: thrd_field(a, f))(S(fn.ex(i.ops[1])))


def change(fn, i, T, addr):
    """by how much a store changes a counter; None: it is set"""
    v = T.ev(i.ops[0])
    if v[0] == 'int':
        return None
    cur = T.mem(addr)
    if cur is None:
        return None
    a, b = lin(S(v)), lin(S(cur))
    if a[0] != b[0]:
        return None
    return a[1] - b[1]


def truthy(T, base, f):
    """is a flag set, as far as is known now"""
    v = T.mem(('fld', base, None, f))
    if v is None:
        return None
    if v[0] == 'int':
        return v[1] != 0
    return flagv(T, v)


def flagv(T, v):
    for k in (('cmp', 'ne', v, ('int', 0)),):
        r = T.holds(k)
        if r is not None:
            return r
    f = T.fact(('eq', v, ('int', 0)))
    return None if f is None else not f


def initialises(fn):
    """the function that makes a thread ready: nothing runs or sleeps there yet"""
    z = {S(fn.ex(i.ops[1]))[3] for i in fn.instrs() if i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'fld' and
         S(fn.ex(i.ops[1]))[1] == THRD and S(fn.ex(i.ops[0])) == ('int', 0)}
    return {'task_count', 'sleep_count', 'active_handle', 'main_handle'} <= z


# ------------------------------------------------------------------------------------------------------ the count
def view(R):
    return R.prog.std(keep=['__thrd_waitfor', 'task_take', 'tasks_schedulering'])


def count(R):
    for a, b in TEXT:
        R.rule(a, b)
    R.cur = 'count'
    m = view(R)
    n = 0
    for fn in funcs(m):
        st = [i for i in fn.instrs() if counts(i, fn, 'task_count')]
        tk = [i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'taken', 'events_task_s')]
        rn = [i for i in fn.instrs() if counts(i, fn, 'running') and S(fn.ex(i.ops[0])) != ('int', 0)]
        sy = [i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'system', 'events_task_s')]
        sl = [i for i in fn.instrs() if counts(i, fn, 'sleep_count')]
        wa = [i for i in fn.instrs() if name(i) in ('data_append', 'data_append_item', 'data_remove') and watched(fn, i)]
        if not (st or tk or rn or sl or wa or [i for i in sy if S(fn.ex(i.ops[0])) != ('int', 0)]):
            continue
        R.saw(fn)
        n += len(st)
        one(R, fn, set(st), set(tk), set(rn), set(sy), set(sl), set(wa))
    R.floor(n, 8, 'places that change the number of tasks')


def watched(fn, i):
    e = S(fn.ex(i.ops[0]))
    return e == ('load', ('g', WATCHED))


def one(R, fn, st, tk, rn, sy, sl, wa):
    init = initialises(fn)

    # x = (counted - due, open questions, task of this round, was it run)
    def due(x, T, i, what):
        bal, open_, t, ran = x
        for sign, e in open_:
            f = flagv(T, e)
            if f is None:
                R.bad(fn, i.where(), 'whether a sleeper is the first or the last one is not looked at', T.trace())
                f = True
            if f is False:
                bal -= sign
        R.check(bal == 0, fn, i.where(), 'the number of tasks is %s %s' % ('too high' if bal > 0 else 'too low', what), trace=T.trace())
        return (0, (), t, ran)

    def step(x, i, T):
        bal, open_, t, ran = x
        if i in st:
            d = change(fn, i, T, COUNT)
            if d is None:
                R.check(init and T.ev(i.ops[0]) == ('int', 0), fn, i.where(), 'the number of tasks is set, not counted', trace=T.trace())
                return x
            return (bal + d, open_, t, ran)
        if i in sl:
            d = change(fn, i, T, SLEEPERS)
            if d is None:
                R.check(init and T.ev(i.ops[0]) == ('int', 0), fn, i.where(), 'the number of sleepers is set, not counted', trace=T.trace())
                return x
            v = T.ev(i.ops[0])
            old = T.mem(SLEEPERS)
            if d == 1:
                return (bal, open_ + ((1, old),), t, ran)
            if d == -1:
                return (bal, open_ + ((-1, v),), t, ran)
            R.bad(fn, i.where(), 'the number of sleepers does not change by one', T.trace())
            return x
        if i in tk:
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if v == ('int', 0):
                s = T.mem(('fld', a[1], None, 'status'))
                new = mentions(a[1], lambda y: y[0] == 'call') or s == ('int', SUSPENDED) or s is not None and \
                    T.holds(('cmp', 'eq', s, ('int', SUSPENDED))) is True or any(
                        k[0] == 'eq' and k[2] == ('int', SUSPENDED) and p and k[1][0] == 'ld' and k[1][1][:2] == ('fld', a[1]) and k[1][1][3] == 'status'
                        for k, p in T.F.items())
                R.check(new, fn, i.where(), 'a task that may be counted is marked as not counted', trace=T.trace())
                return x
            f = truthy(T, a[1], 'taken')
            R.check(f is not None, fn, i.where(), 'a task is taken over that may have been taken before', trace=T.trace())
            if f is False:
                return (bal - 1, open_, t, ran)
            return x
        if i in sy and T.ev(i.ops[0]) != ('int', 0):
            a = T.ev(i.ops[1])
            f = truthy(T, a[1], 'system')
            R.check(f is not None, fn, i.where(), 'a task is set apart from the count that may be apart already', trace=T.trace())
            if f is False:
                return (bal + 1, open_, t, ran)
            return x
        if i in rn:
            v = T.ev(i.ops[0])
            if v != ('int', 0):
                x = due(x, T, i, 'when a round begins')
                return x[:2] + (v, (None, None))
            return x
        if i in wa:
            return (bal + (1 if name(i) == 'data_remove' else -1), open_, t, ran)
        if name(i) in SWITCHES:
            x = due(x, T, i, 'when another task goes on')
            if name(i) == 'task_switch' and t is not None and T.ev(i.ops[0]) == t:
                x = x[:3] + ((None, x[3][1]),)
            return x
        return x

    def edge(x, key, pol, i, T):
        t = x[2]
        if t is not None and key[0] == 'eq' and key[2] == ('int', 0):
            for j, f in enumerate(('halt', 'system')):
                if key[1] == T.mem(('fld', t, None, f)):
                    return x[:3] + (tuple(not pol if q == j else y for q, y in enumerate(x[3])),)
        return x

    def over(x, T, i, what):
        bal, open_, t, ran = x
        if t is not None:
            h, s = ran
            R.check(h is not None, fn, i.where(), 'whether the task has ended is not looked at after it ran', trace=T.trace())
            if h is not False:
                R.check(s is not None, fn, i.where(), 'an ended task is taken off the count without a look whether it is in it', trace=T.trace())
                if s is False:
                    bal += 1
        due((bal, open_, None, (None, None)), T, i, what)
        return (0, (), None, (None, None))

    def back(x, h, again, T):
        T.K = {a: v for a, v in T.K.items() if a not in (COUNT, SLEEPERS)}
        return over(x, T, fn.blocks[h].ins[-1], 'when the next round begins')

    def ex(x, t, T, rv):
        over(x, T, t, 'at the end')
    keep = lambda y: y[0] == 'fld' and y[3] in FIELDS
    Track(fn, track_mem=keep, about=lambda k: mentions(k, keep), step=step, back=back, edge=edge, exit=ex, x0=(0, (), None, (None, None)), pure=QUIET).run()


# ------------------------------------------------------------------------------------------------------ sleepers
def sleepers(R):
    R.cur = 'sleepers'
    m = view(R)
    k = [0]
    for fn in funcs(m):
        st = [i for i in fn.instrs() if counts(i, fn, 'sleep_count')]
        touches = any(i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'fld' and S(fn.ex(i.ops[1]))[3] in ('head', 'tail') and
                      mentions(S(fn.ex(i.ops[1])), lambda y: y[0] == 'fld' and y[3] == 'sleep_queue' or y == ('str', 'sleep_queue')) for i in fn.instrs())
        if not st and not touches or initialises(fn):
            continue
        R.saw(fn)
        sleep_one(R, fn, st, k)
    R.floor(k[0], 2, 'places where tasks go to sleep or wake')


def sleep_one(R, fn, st, k):
    # x = (inserted - removed - counted, task in question)
    def on_op(x, kind, ls, c, N, P, first, i, w, s):
        if lname(ls) != 'sleep_queue':
            return x
        k[0] += 1
        x = due(x, i, w)
        d = 1 if kind == 'insert' or kind == 'append' or kind.startswith('ins') else -1
        return (x[0] + d, c)

    def due(x, i, w):
        R.check(x[0] == 0, fn, i.where(), 'the number of sleepers does not follow the sleeping queue', trace=w.trace())
        return (0, None)

    def step(x, i, w, s):
        if i in st:
            t, c = lin(S(fn.ex(i.ops[0])))
            ok = len(t) == 1 and all(q == 1 and y[0] in ('load', 'ld') and thrd_field(y[1], 'sleep_count') for y, q in t.items())
            R.check(ok, fn, i.where(), 'the number of sleepers is set, not counted', trace=w.trace())
            if ok:
                return (x[0] - c, x[1])
        if name(i) in SWITCHES:
            return due(x, i, w)
        return x

    def edge(x, key, p, i, w, s):
        if x[1] is not None and key[0] == 'eq' and key[2] == ('int', 0) and not p and key[1][0] in ('load', 'ld') and field_of(key[1][1], 'system'):
            return (0, None)                # system tasks are not counted
        return x

    def ex(x, t, w, s):
        due(x, t, w)

    def phi(x, ph, frm, w, s, ev):
        h = ph[0].blk.name
        if h in loop_headers(fn) and x[0] != 0 and not inserting(fn, h):
            return due(x, ph[0], w)
        return x
    Lists(fn, Quiet(), on_op, step=step, edge=edge, exit=ex, phi=phi, extra=(0, None)).run()


def inserting(fn, h):
    return False


class Quiet:
    """malformed lists are the business of P05"""
    cur = ''
    def bad(self, *a, **k):
        pass
    def ok(self, *a, **k):
        pass
    def check(self, *a, **k):
        pass


# ------------------------------------------------------------------------------------------------------ rounds
def set_flag(F, field):
    """is some flag of that name known to be set"""
    for k, p in F.items():
        if k[0] in ('eq', 'lt') and mentions(k, lambda y: y[0] == 'fld' and y[3] == field or y == ('g', field)):
            if k[0] == 'eq' and k[2] == ('int', 0) and not p:
                return True
    return False


def rounds(R):
    R.cur = 'rounds'
    m = view(R)
    sched = {f.name for f in funcs(m) if any(counts(i, f, 'running') and S(f.ex(i.ops[0])) != ('int', 0) for i in f.instrs())}
    k = 0
    for fn in funcs(m):
        cs = [i for i in fn.instrs() if name(i) in sched]
        inl = [i for i in fn.instrs() if counts(i, fn, 'running') and S(fn.ex(i.ops[0])) != ('int', 0)]
        hs = [h for h in loop_headers(fn) if any(i.blk.name in natural_loop(fn, h) for i in cs)]
        if fn.name == 'events_once':
            R.check(cs or inl, fn, fn.entry.ins[0].where(), 'a turn of the loop runs no task')
        if not cs:
            continue
        k += 1
        R.saw(fn)
        rounds_one(R, fn, sched, hs)
    R.floor(k, 3, 'places that run tasks in turn')


def rounds_one(R, fn, sched, hs):
    loops = bool(hs)

    # x = (count known to be not zero, rounds seen)
    def step(x, i, T):
        if name(i) in sched:
            R.check(x[0], fn, i.where(), 'a round begins without a look whether the thread has any task left', trace=T.trace())
            return (False, i.dest)
        if name(i) in SWITCHES:
            return (False, x[1])
        return x

    def about(v):
        return v[0] in ('ld', 'load') and v[1] == COUNT

    def edge(x, key, pol, i, T):
        t = truth(key, pol, about)
        if t is None and key[0] == 'lt' and about(key[3]) and key[2] == ('int', 0):
            t = pol
        if t is None and key[0] == 'lt' and about(key[2]) and key[3] == ('int', 1):
            t = not pol
        if t is not None:
            return (t, x[1])
        return x

    def ex(x, t, T, rv):
        if rv == ('int', -1) and not loops:
            return
        none = zero(T)
        if loops:
            ran = any(k == ('eq', ('call', n, x[1]), ('int', -1)) and p for n in sched for k, p in T.F.items())
            gone = any(k[0] == 'eq' and k[2] == ('int', 0) and p and k[1][0] in ('ld', 'load') and k[1][1] == ('fld', THRD, None, 'loop') for k, p in T.F.items())
            stop = any(set_flag(T.F, f) for f in ('shutdown', 'events_shutdown_set', 'events_got_signal')) or any(
                k[0] == 'eq' and k[2] == ('int', 0) and not p and k[1][0] == 'call' and 'flag' in (k[1][1] or '') for k, p in T.F.items())
            R.check(none or ran or gone or stop, fn, t.where(), 'the thread stops although it has tasks that can run', trace=T.trace())
        else:
            busy = any(k[0] == 'eq' and k[2] == ('int', 0) and not p and k[1][0] in ('ld', 'load') and k[1][1] == ('fld', THRD, None, 'in_callback')
                       for k, p in T.F.items())
            R.check(none or busy or x[1] is not None, fn, t.where(), 'a turn of the loop runs no task although there are some', trace=T.trace())

    def zero(T):
        for k, p in T.F.items():
            t = truth(k, p, about)
            if t is None and k[0] == 'lt' and k[2] == ('int', 0) and about(k[3]):
                t = p
            if t is False:
                return True
        return False
    Track(fn, step=step, edge=edge, exit=ex, x0=(False, None), pure=QUIET).run()


def goes_on(R):
    """events_is_running(): any of the five counts keeps the loop going"""
    R.cur = 'rounds'
    m = view(R)
    fn = m.fn('events_is_running')
    R.saw(fn)
    cs = ('active_descriptors', 'active_timers', 'active_io', 'active_signals', 'task_count')
    for one_ in cs + (None,):
        def init(a):
            if a[0] == 'fld' and a[3] in cs:
                return ('int', int(a[3] == one_))
            if a in (('g', 'events_shutdown_set'), ('g', 'events_got_signal')):
                return ('int', 0)

        def edge(x, key, pol, i, T):
            if key[0] == 'eq' and key[2] == ('int', 0) and (key[1][0] == 'call' and key[1][1] == 'events_is_destroy' and not pol or
                                                          key[1][0] in ('ld', 'load') and key[1][1] == ('fld', THRD, None, 'loop') and pol):
                return None
            return x

        def ex(x, t, T, rv):
            R.check(rv[0] == 'int' and (rv[1] != 0) == (one_ is not None), fn, t.where(),
                    'the loop is taken to be %s although %s' % (('over', one_ + ' is not 0') if one_ else ('running', 'nothing is left')), trace=T.trace())
        Track(fn, init=init, edge=edge, exit=ex, x0='', pure=QUIET | {'events_is_destroy'}, track_mem=lambda a: True).run()


# ------------------------------------------------------------------------------------------------------ the end of a task
def ended(R):
    R.cur = 'ended'
    m = view(R)
    k, enders, runners = 0, set(), set()
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'halt', 'events_task_s'):
                R.saw(fn)
                if S(fn.ex(i.ops[0])) == ('int', 0):
                    b = root(S(fn.ex(i.ops[1])))
                    R.check(b[0] == 'call' and b[1] in ('events_calloc', 'task_derive') or b[0] == 'phi', fn, i.where(), 'a task that may have ended is taken for running again')
                else:
                    enders.add(fn.name)
                    k += 1
            if i.op == 'call' and i.attr['name'] is None:
                c = S(fn.ex(i.attr['callee']))
                if val_field(c, 'func', 'events_task_s'):
                    runners.add(fn.name)
    R.floor(k, 1, 'places where a task ends')
    for n in sorted(enders):
        fn = m.fn(n)

        # x = stage
        def step(x, i, T):
            if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'halt', 'events_task_s') and S(fn.ex(i.ops[0])) != ('int', 0):
                b = T.ev(i.ops[1])[1]
                R.check(b[0] == 'call' and b[1] == 'active_task' or b[0] in ('ld', 'load') and b[1] == ('fld', THRD, None, 'active_handle') or
                        b == ('fld', THRD, None, 'active_buffer') or b[0] == 'phi' or T.mem(('fld', THRD, None, 'active_handle')) == b,
                        fn, i.where(), 'a task other than the running one is marked as ended', trace=T.trace())
                return 1
            if x == 1 and (name(i) in SWITCHES):
                v = T.ev(i.ops[0]) if i.ops else ('?',)
                R.check(name(i) == 'task_switch' and v[0] in ('ld', 'load') and v[1] == ('fld', THRD, None, 'main_handle'), fn, i.where(),
                        'an ended task does not give the thread back to the scheduler', trace=T.trace())
                return 2
            if x == 2 and i.op in ('store', 'call') and not (name(i) or '').startswith('llvm.'):
                R.bad(fn, i.where(), 'an ended task goes on', T.trace())
            return x

        def ex(x, t, T, rv):
            R.check(x != 1, fn, t.where(), 'an ended task goes on', trace=T.trace())
        Track(fn, step=step, exit=ex, x0=0, pure={'active_task'}).run()
    # a task ends only behind the function that ran it
    k = 0
    for fn in funcs(m):
        cs = [i for i in fn.instrs() if name(i) in enders]
        if not cs:
            continue
        R.saw(fn)

        def step(x, i, w):
            if name(i) in runners:
                return True
            if i in cs:
                R.check(x, fn, i.where(), 'a task is ended whose function has not returned', trace=w.trace())
            return x
        Walker(fn, step=step).run(False)


# ------------------------------------------------------------------------------------------------------ the time slept
def slept(R):
    R.cur = 'slept'
    m = R.prog.std(keep=['events_nsec'])
    fn = m.fn('delay')
    R.saw(fn)
    dom = dominators(fn)
    sw = [i for i in fn.instrs() if name(i) in SWITCHES]
    pos = {i: (b.name, j) for b in fn.order for j, i in enumerate(b.ins)}

    def before(d, c):
        (b1, j1), (b2, j2) = pos[d], pos[c]
        return b1 == b2 and j1 < j2 or b1 != b2 and b1 in dom[b2]

    def stamp(v):
        d = fn.defs.get(v[1]) if v[0] == 'ssa' else None
        while d is not None and d.op in ('sext', 'zext', 'freeze'):
            d = fn.defs.get(d.ops[0][1])
        return d
    for b in fn.order:
        t = b.term
        if t.op != 'ret' or not t.ops:
            continue
        d = stamp(t.ops[0])
        while d is not None and d.op == 'trunc':
            d = stamp(d.ops[0])
        ok = d is not None and d.op in ('udiv', 'sdiv') and d.ops[1] == ('int', 1000000)
        R.check(ok and d.ty == 'i64', fn, t.where(), 'the time slept is not computed in milliseconds, in 64 bits')
        if not ok:
            continue
        d = stamp(d.ops[0])
        ok = d is not None and d.op == 'sub' and d.ty == 'i64'
        R.check(ok, fn, t.where(), 'the time slept is not the difference of two times')
        if ok:
            y, x = stamp(d.ops[0]), stamp(d.ops[1])
            R.check(y is not None and any(before(c, y) for c in sw), fn, d.where(), 'the time slept ends before the task woke')
            R.check(x is not None and all(before(x, c) for c in sw), fn, d.where(), 'the time slept begins after the task gave up the processor')


TEXT = [
    ('count', 'the number of tasks of a thread goes up by one for each task that becomes its own, and for the first sleeper, and down by one for each that ended '
     'or was set apart as a system task, and for the last sleeper; nothing else changes it'),
    ('sleepers', 'the number of sleepers follows the sleeping queue, system tasks left out'),
    ('rounds', 'a thread goes on as long as it has tasks, and looks whether it has before each round; a turn of the loop outside of callbacks runs one'),
    ('ended', 'the running task is marked as ended, behind its function, gives the thread back to the scheduler for ever and is never taken for running again'),
    ('slept', 'delay() says how long the task slept, in milliseconds'),
]
RULES = [count, sleepers, rounds, goes_on, ended, slept]

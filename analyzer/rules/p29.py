"""P29: task groups: waiting for a group ends with all its tasks, and gives each result once."""
from rules.common import *
from flow import *
from track import Track, Loop, root, nodest
from rules.p07 import switching, lds, THRD

TEXT = [
    ('made', 'a group that is made becomes the open one of the running task, new and empty of marks; a waitgroup is one that workers may take part in'),
    ('closed', 'a wait is for the open group of the running task only, and closes it before others run; else nothing is done and nothing is given back'),
    ('ended', 'a task is taken out of the list it is waited in only when seen ended since others last ran, and is deleted before others run; its result '
              'is recorded first, once, if it has one, under the lock if workers record too'),
    ('all', 'a wait ends only when the list is seen empty, and for a waitgroup when no worker is left that counts down; each round takes one out or lets others run'),
    ('post', 'a group is given to the workers once, when each of them is seen free; each task taken from it goes to one worker as its own, each worker is '
             'told of the group and started, and as many are counted as are told'),
    ('begun', 'the tasks of a waitgroup are each made ready and put into the run queue once, by who waits for them, before others run'),
    ('down', 'a worker counts down once, after its own part ended and it is free again, under the lock, and does not touch the group afterwards'),
    ('given', 'the group is released once, after its last use by a worker; the results are given back and collected once, or released if there are none'),
]
MEMBERS = {'group': 'task_group_s', 'jobs': 'events_deque_s'}
QUIET = {'is_data', 'is_ptr_usable', 'array', 'arrays', 'data_append', 'data_append_item', 'data_remove', 'atomic_spinlock_lock', 'atomic_spinlock_unlock',
         'data_size', 'data_reserve', 'data_lock', 'data_capacity', 'data_pop', 'data_shift', 'task_is_terminated', 'tasks_info', 'active_info', 'ex_local',
         'ex_update', 'events_free', 'data_type', 'task_name', 'task_id', 'data_delete', 'defer_free', 'task_delete', 'is_taskgroup', 'is_waitgroup'}
KEEPQ = ['tasks_schedulering', 'task_take']
NEW = {'task_group', 'waitgroup', 'create_task_group'}


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def view(R):
    return R.prog.std(keep=KEEPQ)


def first(fn):
    return fn.entry.ins[0].where()


def base(v, f):
    """x where v was read from field f of x"""
    v = nodest(v)
    return v[1][1] if v[0] == 'load' and v[1][0] == 'fld' and v[1][3] == f else None


def member(v):
    """which list of members v is: 'group' / 'jobs'"""
    return next((f for f in MEMBERS if base(v, f) is not None), None)


def stat_member(fn, o):
    e = S(fn.ex(o))
    return any(val_field(e, f, s) for f, s in MEMBERS.items())


def stores_to(fn, f, s):
    return [i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), f, s)]


def waiters(m):
    """functions that take tasks out of the list they are waited in"""
    for fn in funcs(m):
        if any(name(i) == 'data_remove' and stat_member(fn, i.ops[0]) for i in fn.instrs()):
            yield fn


def elem(v):
    """(list, index) of an element, None if it is none"""
    v = nodest(v)
    for y in walk(v):
        if y[0] == 'load' and y[1][0] == 'idx' and nodest(y[1][1])[0] == 'load' and member(y[1][1]):
            return nodest(y[1][1]), nodest(y[1][2])
        if y[0] == 'load' and member(y[1]) and y[1][0] == 'load':
            return nodest(y[1]), ('int', 0)
    return None


# ------------------------------------------------------------------------------------------------------ made
def made(R):
    R.cur = 'made'
    m = R.prog.std()
    k = 0
    for fn in funcs(m):
        up = [i for i in stores_to(fn, 'task_group', 'events_task_s') if S(fn.ex(i.ops[0])) != ('int', 0)]
        if up:
            k += 1
            R.saw(fn)
            made_one(R, fn, up)
    R.floor(k, 1, 'functions that make a group')
    n = 0
    for fn in funcs(m):
        st = [i for i in stores_to(fn, 'threaded', 'task_group_s') if S(fn.ex(i.ops[0])) != ('int', 0)]
        if not st:
            continue
        n += 1
        R.saw(fn)

        def step(x, i, T):
            if name(i) in NEW:
                return ('call', i.attr['name'], i.dest), False
            if i in st:
                g = T.ev(i.ops[1])[1]
                R.check(g == x[0] and T.ev(i.ops[0])[0] == 'int', fn, i.where(), 'what is marked as a waitgroup is not the group just made', trace=T.trace())
                return x[0], True
            return x

        def ex(x, t, T, rv):
            if x[0] is not None:
                R.check(rv == x[0] and x[1], fn, t.where(), 'a group is made but not given back as a waitgroup', trace=T.trace())
            else:
                R.check(rv is None or T.null(rv), fn, t.where(), 'something else is given back as a waitgroup', trace=T.trace())
        Track(fn, step=step, exit=ex, x0=(None, False), pure=QUIET | NEW).run()
    R.floor(n, 1, 'functions that make a waitgroup')


def made_one(R, fn, up):
    want = {'threaded': 0, 'taken': 0, 'count': 0}

    # x = (group stored, task, marks of the task, marks of the group)
    def step(x, i, T):
        g, t, mt, mg = x
        if i in up:
            R.check(g is None, fn, i.where(), 'two groups are made', trace=T.trace())
            v = T.ev(i.ops[0])
            t2 = nodest(T.ev(i.ops[1])[1])
            R.check(mine(t2), fn, i.where(), 'a group is made for a task that is not the running one', trace=T.trace())
            R.check(v[0] == 'call' and v[1] in ('events_calloc', 'events_malloc'), fn, i.where(), 'the group of the task is not a new one', trace=T.trace())
            return (v, t2, mt, mg)
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] in ('group_active', 'group_finish') and mine(nodest(a[1])):
                return (g, t, tuple(sorted(dict(mt + ((a[3], v[1] if v[0] == 'int' else None),)).items())), mg)
            if a[0] == 'fld' and a[1][0] == 'call':
                return (g, t, mt, tuple(sorted(dict(mg + (((a[1], a[3]), v),)).items(), key=str)))
        return x

    def ex(x, t, T, rv):
        g, tk, mt, mg = x
        if g is None:
            return
        mt, mg = dict(mt), dict(mg)
        R.check(mt.get('group_active') not in (0, None) and mt.get('group_finish') == 0, fn, t.where(), 'a new group is not marked as the open one', trace=T.trace())
        zero = g[1] == 'events_calloc'
        for f, w in want.items():
            v = mg.get((g, f))
            R.check(v == ('int', w) or v is None and zero, fn, t.where(), 'a new group starts with %s set' % f, trace=T.trace())
        v = mg.get((g, 'group'))
        R.check(v is not None and v[0] == 'call' and v[1] in ('array', 'arrays', 'data_array', 'data_reserve'), fn, t.where(), 'a new group has no list of its own',
                trace=T.trace())
        R.check(rv == g, fn, t.where(), 'the group given back is not the one of the task', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(None, None, (), ()), pure=QUIET).run()


def mine(t):
    """t is the running task"""
    if t[0] == 'load' and t[1][0] == 'fld' and t[1][3] == 'active_handle' and nodest(t[1][1])[:2] == THRD[:2]:
        return True
    return t[0] == 'fld' and t[3] == 'active_buffer' or t[0] == 'call' and t[1] == 'active_task'


# ------------------------------------------------------------------------------------------------------ ended
def ended(R):
    m = view(R)
    sw = switching(m)
    k = 0
    for fn in waiters(m):
        k += 1
        R.cur = 'ended'
        R.saw(fn)
        ended_one(R, fn, sw)
    R.floor(k, 3, 'functions that wait for tasks')


def ended_one(R, fn, sw):
    common_list = any(field_of(S(fn.ex(i.ops[1] if i.op == 'store' else i.ops[0])), 'results', 'task_group_s') for i in fn.instrs() if i.op in ('store', 'load'))

    # x = (asked calls {(dest, kind, of)}, seen ended, has result, has none, pending (task, recorded), locks, rounds of removal)
    def step(x, i, T):
        ask, term, has, non, pend, lock, gone = x
        n = name(i)
        if i.op == 'load':
            a = T.ev(i.ops[0])
            r = {nodest(y[1]) for y in walk(a) if y[0] == 'fld'}
            R.check(not (r & gone), fn, i.where(), 'a deleted task is looked at', trace=T.trace())
        if n in ('task_is_terminated', 'is_ptr_usable', 'is_data'):
            v = nodest(T.ev(i.ops[0]))
            if n == 'is_ptr_usable' and base(v, 'results') is None or n == 'is_data' and pend is None:
                return x
            return (frozenset(a for a in ask if a[0] != i.dest) | {(i.dest, n, v)},) + x[1:]
        if n == 'atomic_spinlock_lock':
            return x[:5] + (lock + 1, gone)
        if n == 'atomic_spinlock_unlock':
            return x[:5] + (max(0, lock - 1), gone)
        if n == 'data_remove' and member(T.ev(i.ops[0])):
            L, j = nodest(T.ev(i.ops[0])), nodest(T.ev(i.ops[1]))
            R.check(pend is None, fn, i.where(), 'a task that was taken out is forgotten', trace=T.trace())
            e = next((v for v in term if elem(v) == (L, j)), None)
            R.check(e is not None, fn, i.where(), 'a task is taken out that was not seen ended since others last ran', trace=T.trace())
            return x[:4] + ((e, 0), lock, gone)
        if n in ('data_append', 'data_append_item') and any(base(T.ev(o), 'rid') is not None for o in i.ops):
            e = next(base(T.ev(o), 'rid') for o in i.ops if base(T.ev(o), 'rid') is not None)
            R.check(pend is not None and e == pend[0], fn, i.where(), 'a result is recorded that is not the one of the task just taken out', trace=T.trace())
            if pend is None:
                return x
            R.check(pend[1] == 0, fn, i.where(), 'a result is recorded twice', trace=T.trace())
            R.check(e in has, fn, i.where(), 'a result is recorded without a look whether there is one', trace=T.trace())
            R.check(lock > 0 or not common_list, fn, i.where(), 'a result is recorded without the lock although workers record too', trace=T.trace())
            return x[:4] + ((e, pend[1] + 1), lock, gone)
        if n == 'task_delete':
            e = nodest(T.ev(i.ops[0]))
            if pend is not None and pend[0] == e:
                R.check(pend[1] == 1 or e in non, fn, i.where(), 'a task is deleted whose result was not recorded', trace=T.trace())
                return (ask, term - {e}, has - {e}, non - {e}, None, lock, gone | {e})
            return x
        if n in sw:
            R.check(pend is None, fn, i.where(), 'others run while a task is taken out and not deleted', trace=T.trace())
            return (frozenset(), frozenset(), frozenset(), frozenset(), None, 0, frozenset())
        return x

    def edge(x, key, pol, i, T):
        ask, term, has, non, pend, lock, gone = x
        for d, n, v in ask:
            t = truth(key, pol, lambda y: y == ('call', n, d))
            if t is None:
                continue
            if n == 'task_is_terminated' and t:
                term = term | {v}
            elif n == 'is_ptr_usable' and base(v, 'results') is not None:
                e = base(v, 'results')
                has, non = (has | {e}, non) if t else (has, non | {e})
            elif n == 'is_data' and not t and member(v) is None and pend is not None:
                non = non | {pend[0]}           # there is no list of results to record it in
        v = key[1] if key[0] == 'eq' and key[2] == ('int', 0) else None
        e = base(v, 'results') if isinstance(v, tuple) else None
        if e is not None:
            has, non = (has, non | {e}) if pol else (has | {e}, non)
        return (ask, term, has, non, pend, lock, gone)

    def stale(x, pred):
        f = lambda s: frozenset(y for y in s if not mentions(y, pred))
        return (x[0], f(x[1]), f(x[2]), f(x[3]), x[4], x[5], f(x[6]))

    def back(x, h, again, T):
        if again:
            R.check(x[4] is None or x[4][0] is None, fn, fn.blocks[h].ins[-1].where(), 'a task that was taken out is not deleted', trace=T.trace())
            return (frozenset(), frozenset(), frozenset(), frozenset(), None, 0, frozenset())
        return x

    def ex(x, t, T, rv):
        R.check(x[4] is None, fn, t.where(), 'a task that was taken out is not deleted', trace=T.trace())
    keep = lambda y: y[0] == 'fld' and y[3] in ('results', 'rid') or y[0] == 'call' and y[1] in ('task_is_terminated', 'is_ptr_usable', 'is_data')
    z = frozenset()
    Track(fn, step=step, edge=edge, stale=stale, back=back, exit=ex, x0=(z, z, z, z, None, 0, z), pure=QUIET,
          track_mem=lambda a: False, about=lambda q: mentions(q, keep)).run()


# ------------------------------------------------------------------------------------------------------ closed, all, down, given
def asks_size(x, i, T):
    return frozenset(a for a in x if a[0] != i.dest) | {(i.dest, nodest(T.ev(i.ops[0])))}


def gone_zero(key, pol, v):
    """does the literal say that v, a count, is zero or less"""
    if key[0] == 'eq' and key[2] == ('int', 0) and v(key[1]):
        return pol
    if key[0] == 'lt':
        a, b = key[2], key[3]
        if v(b) and a[0] == 'int' and a[1] <= 0:
            return not pol
        if v(a) and b[0] == 'int' and b[1] <= 1:
            return pol
    return False


def strip(v):
    while v[0] in ('trunc', 'zext', 'sext'):
        v = v[-1]
    return v


def iscount(v):
    return base(strip(v), 'count') is not None


def sized(ask, v):
    v = strip(v)
    return next((L for d, L in ask if v == ('call', 'data_size', d)), None)


def innermost(fn, sw):
    """loops in which a round has to take one out or to let others run"""
    bodies = {h: Loop(fn, h).body for h in loop_headers(fn)}
    out = set()
    for h, b in bodies.items():
        if any(k != h and k in b for k in bodies):
            continue
        ins = [i for n in b for i in fn.blocks[n].ins]
        act = any(name(i) == 'data_remove' and stat_member(fn, i.ops[0]) or name(i) in sw for i in ins)
        cnt = any(i.op == 'load' and field_of(S(fn.ex(i.ops[0])), 'count', 'task_group_s') for i in ins)
        if act or cnt:
            out.add(h)
    return out


def wait(R):
    m = view(R)
    sw = switching(m)
    ws = list(waiters(m))
    names = {f.name for f in ws}
    plain = any(any(i.op == 'store' for i in downs(f)) for f in ws)
    kj = kw = 0
    for fn in ws:
        join = any(name(i) == 'data_remove' and val_field(S(fn.ex(i.ops[0])), 'group', 'task_group_s') for i in fn.instrs())
        kj += join
        kw += not join
        wait_one(R, fn, sw, names, join, plain)
    R.cur = 'closed'
    R.floor(kj, 2, 'functions that wait for the tasks of a group')
    R.cur = 'down'
    R.floor(kw, 1, 'functions that wait for the part of a worker')
    for fn in funcs(m):
        ds = downs(fn)
        if ds and fn.name not in names:
            R.bad(fn, sorted(ds, key=lambda i: i.where())[0].where(), 'a group is counted down by who did not wait for its tasks', ())


def downs(fn):
    out = set()
    for i in fn.instrs():
        if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'count', 'task_group_s'):
            if mentions(S(fn.ex(i.ops[0])), lambda y: y[0] in ('ld', 'load') and field_of(y[1], 'count')):
                out.add(i)
        if i.op == 'atomicrmw' and field_of(S(fn.ex(i.ops[0])), 'count', 'task_group_s') and i.attr['rmw'] in ('sub', 'add'):
            out.add(i)
    return out


JX = ('act', 'same', 'off', 'fin', 'did', 'ran', 'empty', 'thr', 'cnt', 'lk', 'freed', 'ldel', 'zero', 'put', 'ask', 'moved', 'owe', 'dn', 'free', 'lock', 'gone')


def wait_one(R, fn, sw, names, join, plain):
    from collections import namedtuple
    J = namedtuple('J', JX)
    z = frozenset()
    z0 = J(None, False, False, False, False, False, False, None, False, 0, 0, False, z, z, z, False, None, 0, False, None, None)
    inner = innermost(fn, sw)
    ds = downs(fn)
    R.cur = 'closed' if join else 'down'
    R.saw(fn)
    bad = lambda c, r, i, msg, T: (setattr(R, 'cur', r), R.check(c, fn, i if isinstance(i, str) else i.where(), msg, trace=T.trace()))

    def ptrs(i, T):
        if i.op == 'load':
            o = [T.ev(i.ops[0])]
        elif i.op in ('store', 'atomicrmw', 'cmpxchg'):
            o = [T.ev(i.ops[1 if i.op == 'store' else 0])]
        elif i.op == 'call' and not (i.attr['name'] or '').startswith('llvm.'):
            o = [T.ev(a) for a in i.ops if isinstance(a, tuple)]
        else:
            o = []
        return {nodest(y) for e in o for y in walk(e)}

    def step(x, i, T):
        n = name(i)
        if x.gone is not None and x.gone in ptrs(i, T):
            bad(False, 'given' if join else 'down', i, 'the group is touched after it is out of hand', T)
            return None
        if i.op == 'load' and not join:
            a = T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] == 'tasks':
                return x._replace(owe=('ld', a, i.dest)) if x.owe is None else x
        if n == 'data_size':
            return x._replace(ask=asks_size(x.ask, i, T))
        if n in names:
            x = x._replace(owe=None)
        if n in sw:
            if join:
                bad(x.act is not None and x.same, 'closed', i, 'others run in a wait that is not for the open group of the running task', T)
                bad(x.off and x.fin, 'closed', i, 'others run while the group that is waited for is still open', T)
            return x._replace(ran=True, moved=True, did=True, ask=z)
        if n == 'data_remove' and member(T.ev(i.ops[0])):
            return x._replace(moved=True, did=True, empty=False)
        if n in ('data_append', 'data_append_item') and member(T.ev(i.ops[0])):
            return x._replace(empty=False)
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and mine(nodest(a[1])) and a[3] in ('group_active', 'group_finish'):
                if join:
                    bad(x.act is not None and x.same, 'closed', i, 'a group is closed that was not seen to be the open one of the running task', T)
                if a[3] == 'group_active':
                    return x._replace(off=v == ('int', 0), did=True)
                return x._replace(fin=v[0] == 'int' and v != ('int', 0), did=True)
            if a[0] == 'fld' and a[3] == 'tasks' and v == ('int', 0) and not join:
                bad(x.empty, 'down', i, 'a worker is free for the next group while tasks of this one are left', T)
                return x._replace(free=True)
        if i in ds:
            w = nodest(T.ev(i.ops[1 if i.op == 'store' else 0]))[1]
            ok = i.op == 'atomicrmw'
            if i.op == 'store':
                v = T.ev(i.ops[0])
                ok = lin_one(v)
                bad(x.lock is not None and x.lock == ('load', ('fld', w, None, 'group')), 'down', i, 'a worker counts down without the lock of the group', T)
            bad(ok, 'down', i, 'a worker counts down by something else than one', T)
            bad(x.empty, 'down', i, 'a worker counts down while tasks of its part are left', T)
            bad(x.free, 'down', i, 'a worker counts down before it is free for the next group', T)
            bad(x.dn == 0, 'down', i, 'a worker counts down twice', T)
            return x._replace(dn=x.dn + 1, owe=None, gone=w if i.op == 'atomicrmw' else None)
        if n == 'atomic_spinlock_lock':
            L = lockof(fn, i, T)
            return x._replace(lock=L, lk=1 if x.cnt and join and L is not None and member(L) else x.lk)
        if n == 'atomic_spinlock_unlock':
            gone = x.gone
            if not join and x.dn and x.lock is not None:
                gone = base(x.lock, 'group')
            return x._replace(lock=None, lk=2 if x.lk == 1 else x.lk, gone=gone)
        if join and n == 'data_delete':
            v = T.ev(i.ops[0])
            if member(v) == 'group':
                bad(x.empty, 'given', i, 'the list of a group is released while tasks may be left in it', T)
                return x._replace(ldel=True)
            if v in x.zero:
                return x._replace(put=x.put | {('del', v)})
            bad(False, 'given', i, 'results are released that were not seen to be none', T)
            return x
        if join and n == 'defer_free':
            v = T.ev(i.ops[0])
            bad(('col', v) not in x.put and ('del', v) not in x.put, 'given', i, 'the results are collected twice', T)
            return x._replace(put=x.put | {('col', v)})
        if join and n == 'events_free':
            v = nodest(T.ev(i.ops[0]))
            bad(v == ('arg', 0) or base(v, 'task_group') is not None, 'given', i, 'something else than the group is released', T)
            bad(x.empty, 'given', i, 'a group is released while tasks may be left in it', T)
            bad(x.ldel, 'given', i, 'the list of a released group is lost', T)
            bad(x.thr is False or x.cnt, 'given', i, 'a group is released while a worker may still count down', T)
            bad(x.thr is False or not plain or x.lk == 2, 'given', i, 'a group is released while the last worker may still hold its lock', T)
            return x._replace(freed=x.freed + 1, gone=v)
        return x

    def edge(x, key, pol, i, T):
        t = truth(key, pol, lambda v: base(v, 'group_active') is not None)
        if t is not None:
            b = next(base(v, 'group_active') for v in key[1:3] if isinstance(v, tuple) and base(v, 'group_active') is not None)
            if t and mine(b):
                x = x._replace(act=b)
        if key[0] == 'eq' and pol:
            for a, b in ((key[1], key[2]), (key[2], key[1])):
                q = base(a, 'task_group') if isinstance(a, tuple) else None
                if q is not None and mine(q) and b == ('arg', 0):
                    x = x._replace(same=True)
        t = truth(key, pol, lambda v: base(v, 'threaded') is not None)
        if t is not None:
            x = x._replace(thr=t)
        if gone_zero(key, pol, iscount):
            x = x._replace(cnt=True)
        for d, L in x.ask:
            if gone_zero(key, pol, lambda v: strip(v) == ('call', 'data_size', d)):
                if member(L) == ('group' if join else 'jobs'):
                    x = x._replace(empty=True)
                else:
                    x = x._replace(zero=x.zero | {v for v in vals.get(d, ())})
        if not join and x.owe is not None and key[0] == 'eq' and key[2] == ('int', 0) and key[1] == x.owe and pol:
            x = x._replace(owe=None)
        return x
    vals = {}

    def step2(x, i, T):
        if name(i) == 'data_size':
            vals.setdefault(i.dest, set()).add(T.ev(i.ops[0]))
        return step(x, i, T)

    def back(x, h, again, T):
        if h in inner:
            if again:
                bad(x.moved or not x.ran and not x.did, 'all', fn.blocks[h].ins[-1], 'a round of a wait neither takes a task out nor lets others run', T)
            x = x._replace(moved=False)
        elif again and x.dn:
            x = z0
        return x._replace(ask=z)

    def ex(x, t, T, rv):
        if not join:
            bad(x.owe is None, 'down', t, 'a worker took a group and does not count down', T)
            return
        if not x.did:
            bad(rv is not None and (rv == ('int', 0) or T.null(rv) is True), 'closed', t, 'something is given back for a group that was not waited for', T)
            return
        bad(x.empty, 'all', t, 'a wait ends while tasks may be left in the group', T)
        bad(x.thr is False or x.cnt, 'all', t, 'a wait ends while workers may have tasks of the group left', T)
        bad(x.freed == 1, 'given', t, 'a group that was waited for is not released', T)
        z = rv is not None and (rv == ('int', 0) or T.null(rv) is True)
        if z:
            bad(any(p[0] == 'del' for p in x.put), 'given', t, 'results are lost', T)
        else:
            bad(('col', rv) in x.put and ('del', rv) not in x.put, 'given', t, 'the results given back are not the ones collected', T)
    KEEP = ('group_active', 'group_finish', 'task_group', 'threaded', 'count')
    keep = lambda y: y[0] == 'fld' and y[3] in KEEP or y[0] == 'call' and y[1] == 'data_size'
    Track(fn, step=step2, edge=edge, back=back, exit=ex, x0=z0, pure=QUIET,
          track_mem=lambda a: False, about=lambda q: mentions(q, keep) or q[1][0] == 'ld' and elem(q[1]) is not None and q[1][1][0] == 'idx').run()


def lin_one(v):
    v = nodest(v)
    return v[0] == 'bin' and (v[1] == 'sub' and v[3] == ('int', 1) or v[1] == 'add' and ('int', -1) in v[2:]) and any(iscount(y) for y in v[2:])


def lockof(fn, i, T):
    """the array whose lock is taken"""
    v = T.ev(i.ops[0])
    if v[0] == 'call' and v[1] == 'data_lock' and v[2] in fn.defs:
        return nodest(T.ev(fn.defs[v[2]].ops[0]))
    return None


# ------------------------------------------------------------------------------------------------------ begun
def counters(fn):
    """loops over a whole list: header -> counters that go from 0 up by one"""
    out = {}
    for h in loop_headers(fn):
        iv = {('phi', d) for d, (s, k) in Loop(fn, h).iv.items() if S(s) == ('int', 0) and k == 1}
        if iv:
            out[h] = iv
    return out


def through(key, pol, iv, ask):
    """the list that was gone through to its end, when the literal says that a counter reached its size"""
    if key[0] != 'lt' or pol:
        return None
    a, b = strip(key[2]), strip(key[3])
    if a in iv:
        return sized(ask, b)
    return None


def begun(R):
    R.cur = 'begun'
    m = view(R)
    sw = switching(m)
    k = 0
    for fn in waiters(m):
        if any(field_of(S(fn.ex(i.ops[0])), 'threaded', 'task_group_s') for i in fn.instrs() if i.op == 'load') or \
                any(name(i) == 'data_remove' and val_field(S(fn.ex(i.ops[0])), 'jobs') for i in fn.instrs()):
            k += 1
            R.saw(fn)
            begun_one(R, fn, sw)
    R.floor(k, 2, 'functions that wait for tasks not begun before')


def begun_one(R, fn, sw):
    cs = counters(fn)
    bodies = {h: Loop(fn, h).body for h in cs}

    # x = (loop, all rounds did it, (ready, queued) this round, lists gone through, sizes asked, threaded)
    def step(x, i, T):
        loop, good, rq, full, ask, thr = x
        n = name(i)
        if n == 'data_size':
            return (loop, good, rq, full, asks_size(ask, i, T), thr)
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            e = elem(a[1]) if a[0] == 'fld' and a[3] == 'ready' else None
            if e is not None and v[0] == 'int' and v[1] and loop is not None and e[1] in cs[loop]:
                return (loop, good, (e, rq[1]), full, ask, thr)
            if a[0] == 'fld' and a[3] == 'tasks' and v == ('int', 0):
                return (loop, good, rq, frozenset(L for L in full if member(L) != 'jobs'), ask, thr)
            if a[0] == 'fld' and a[3] == 'tail' and mentions(a, lambda y: y[0] == 'fld' and y[3] == 'run_queue'):
                e = elem(v)
                if e is None:
                    return x
                R.check(rq[1] is None and e[0] not in full, fn, i.where(), 'a task of a group is put into the run queue twice', trace=T.trace())
                R.check(loop is not None and e[1] in cs[loop], fn, i.where(), 'a task of a group is put into the run queue, but not each of them', trace=T.trace())
                return (loop, good, (rq[0], e), full, ask, thr)
        if n in ('data_pop', 'data_shift') and member(T.ev(i.ops[0])):
            R.check(nodest(T.ev(i.ops[0])) not in full, fn, i.where(), 'a task is given away that was already put into the run queue', trace=T.trace())
            return (loop, good, rq, full, changed(ask, T.ev(i.ops[0])), thr)
        if n in sw:
            return (loop, good, rq, full, frozenset(), thr)
        if n in ('data_append', 'data_append_item') and member(T.ev(i.ops[0])):
            return (loop, good, rq, full, changed(ask, T.ev(i.ops[0])), thr)
        if n == 'data_remove' and member(T.ev(i.ops[0])):
            L = nodest(T.ev(i.ops[0]))
            R.check(L in full or thr is False, fn, i.where(), 'tasks are waited for that were not all made ready and put into the run queue', trace=T.trace())
            return (loop, good, rq, full, changed(ask, T.ev(i.ops[0])), thr)
        return x

    def edge(x, key, pol, i, T):
        loop, good, rq, full, ask, thr = x
        t = truth(key, pol, lambda v: base(v, 'threaded') is not None)
        if t is not None:
            thr = t
        if loop is not None:
            L = through(key, pol, cs[loop], ask)
            if L is not None and i.blk.name in bodies[loop]:
                if good and member(L):
                    full = full | {L}
                loop = None
        return (loop, good, rq, full, ask, thr)

    def back(x, h, again, T):
        loop, good, rq, full, ask, thr = x
        if h not in cs:
            return x
        if not again:
            return (h, True, (None, None), full, ask, thr)
        if h == loop:
            ok = rq[0] is not None and rq[0] == rq[1]
            return (h, good and ok, (None, None), full, ask, thr)
        return (None, False, (None, None), full, ask, thr)
    z = frozenset()
    keep = lambda y: y[0] == 'fld' and y[3] == 'threaded'
    Track(fn, step=step, edge=edge, back=back, x0=(None, False, (None, None), z, z, None), pure=QUIET, track_mem=lambda a: False,
          about=lambda q: mentions(q, keep) or q[1][0] == 'ld' and elem(q[1]) is not None and q[1][1][0] == 'idx').run()


def changed(ask, L):
    return frozenset(a for a in ask if a[1] != nodest(L))


# ------------------------------------------------------------------------------------------------------ post
def queue_of(q):
    """the number of the queue q is"""
    q = nodest(q)
    if q[0] == 'load' and q[1][0] == 'idx' and base(q[1][1], 'local') is not None:
        return strip(q[1][2])
    if q[0] == 'load' and base(q[1], 'local') is not None:
        return ('int', 0)
    return None


def cpu(v):
    """counter where v is an entry of the list of workers"""
    v = nodest(strip(v))
    if v[0] == 'load' and v[1][0] == 'idx' and base(v[1][1], 'tasks_cpu_idx') is not None:
        return v[1][2]
    return None


def post(R):
    R.cur = 'post'
    m = view(R)
    sw = switching(m)
    k = 0
    for fn in funcs(m):
        tell = {i for i in stores_to(fn, 'tasks', 'events_deque_s') if S(fn.ex(i.ops[0])) != ('int', 0)}
        if tell:
            k += 1
            R.saw(fn)
            post_one(R, fn, sw, tell)
    R.floor(k, 1, 'functions that give a group to the workers')


PX = ('main', 'loop', 'idle', 'told', 'on', 'r', 'ask', 'counted', 'res', 'p', 'mark', 'busy')


def post_one(R, fn, sw, tell):
    from collections import namedtuple
    P = namedtuple('P', PX)
    cs = counters(fn)
    bodies = {h: Loop(fn, h).body for h in cs}
    z = frozenset()
    CPU = ('load', ('fld', ('g', 'sys_event'), None, 'tasks_cpu_idx'))
    # main: seen to be the main thread; loop: {header: (rounds saw it free, told, started)}; idle/told/on: each queue seen free / told / started
    # r: per header, what this round did; counted; res: results there; p: task popped and not yet placed

    def upd(x, h, j):
        """round of loop h did j (0 free, 1 told, 2 started)"""
        r = dict(x.r)
        if h in r:
            r[h] = tuple(1 if k == j else v for k, v in enumerate(r[h]))
        return x._replace(r=tuple(sorted(r.items())))

    def home(x, k):
        """loop of which k is the counter"""
        return next((h for h in dict(x.loop) if k in cs[h]), None)

    def step(x, i, T):
        n = name(i)
        if n == 'data_size':
            return x._replace(ask=asks_size(x.ask, i, T))
        if n in sw:
            R.check(x.p is None, fn, i.where(), 'others run while a task is in no list', trace=T.trace())
            R.check(not x.busy or x.told and x.on, fn, i.where(), 'others run before each worker is told of the group and started', trace=T.trace())
            return x._replace(idle=False, loop=(), r=(), ask=lasting(x.ask))
        if n in ('data_pop', 'data_shift') and member(T.ev(i.ops[0])) == 'group':
            R.check(x.p is None, fn, i.where(), 'a task taken from the group is lost', trace=T.trace())
            R.check(x.main, fn, i.where(), 'tasks are given to workers by who is not the main thread', trace=T.trace())
            return x._replace(p=(('call', n, i.dest), None, None))
        if n in ('data_append', 'data_append_item', 'data_reserve') and member(T.ev(i.ops[0])) == 'jobs':
            q = queue_of(base(T.ev(i.ops[0]), 'jobs'))
            R.check(x.idle, fn, i.where(), 'the jobs of a worker are changed that was not seen to be free', trace=T.trace())
            h = home(x, cpu(q)) if q is not None and cpu(q) is not None else None
            R.check(h is not None, fn, i.where(), 'a task is given to a queue that is not the one of a worker', trace=T.trace())
            if h is not None:
                R.check(not dict(x.r).get(h, (0, 0, 0))[1], fn, i.where(), 'a task is given to a worker after it was told of the group', trace=T.trace())
            if n != 'data_reserve':
                v = [T.ev(o) for o in i.ops[1:]]
                ok = x.p is not None and any(popped(y) == x.p[0] for y in v)
                R.check(ok, fn, i.where(), 'what is given to a worker is not the task taken from the group', trace=T.trace())
                if ok:
                    R.check(x.p[1] is None, fn, i.where(), 'a task is given to two workers', trace=T.trace())
                    x = x._replace(p=settle((x.p[0], q, x.p[2])))
            return x._replace(mark=('call', n, i.dest))
        if i.op == 'atomicrmw' or i.op == 'cmpxchg' or n in ('atomic_flag_test_and_set',):
            a = T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] == 'started' and i.op == 'atomicrmw' and i.attr['rmw'] in ('xchg', 'or') and T.ev(i.ops[1]) != ('int', 0):
                k = cpu(queue_of(a[1]) or ('int', 0))
                h = home(x, k) if k is not None else None
                if h is not None:
                    return upd(x, h, 2)
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if i in tell:
                k = cpu(queue_of(a[1]) or ('int', 0))
                R.check(x.idle, fn, i.where(), 'a worker is told of a group that was not seen to be free', trace=T.trace())
                R.check(x.main, fn, i.where(), 'workers are told of a group by who is not the main thread', trace=T.trace())
                R.check(x.counted, fn, i.where(), 'a worker is told of a group before it is counted', trace=T.trace())
                R.check(x.res, fn, i.where(), 'a worker is told of a group without a list for the results with room for all', trace=T.trace())
                R.check(x.p is None, fn, i.where(), 'a worker is told of a group before it has the task', trace=T.trace())
                R.check(v == ('arg', 0) or base(v, 'task_group') is not None, fn, i.where(), 'a worker is told of something else', trace=T.trace())
                h = home(x, k) if k is not None else None
                R.check(h is not None, fn, i.where(), 'a queue is told of a group that is not the one of a worker', trace=T.trace())
                return upd(x, h, 1)._replace(busy=True) if h is not None else x._replace(busy=True)
            if a[0] == 'fld' and a[3] == 'jobs':
                R.check(v == x.mark, fn, i.where(), 'the jobs of a worker are replaced', trace=T.trace())
            if a[0] == 'fld' and a[3] == 'tid' and x.p is not None and popped(a[1]) == x.p[0]:
                return x._replace(p=settle((x.p[0], x.p[1], nodest(strip(v)))))
            if a[0] == 'fld' and a[3] == 'count' and (nodest(a[1]) == ('arg', 0) or base(a[1], 'task_group') is not None):
                R.check(sized(x.ask, v) == CPU, fn, i.where(), 'the workers counted for a group are not the ones there are', trace=T.trace())
                return x._replace(counted=True)
            if a[0] == 'fld' and a[3] == 'results' and (nodest(a[1]) == ('arg', 0) or base(a[1], 'task_group') is not None):
                return x._replace(res=room(fn, T, v, x.ask, x.busy))
        return x

    def lasting(ask):
        return frozenset(a for a in ask if a[1] == CPU)

    def settle(p):
        if p[1] is not None and p[2] is not None:
            return None if strip(p[1]) == p[2] else p
        return p

    def edge(x, key, pol, i, T):
        t = truth(key, pol, lambda v: base(v, 'is_main') is not None)
        if t:
            x = x._replace(main=True)
        if key[0] == 'eq' and key[2] == ('int', 0) and pol:
            q = base(key[1], 'tasks') if key[1][0] in ('ld', 'load') else None
            k = cpu(queue_of(q) or ('int', 0)) if q is not None else None
            h = home(x, k) if k is not None else None
            if h is not None:
                x = upd(x, h, 0)
        for h, good in x.loop:
            L = through(key, pol, cs[h], x.ask)
            if L is None and key[0] == 'lt' and not pol and strip(key[2]) in cs[h] and iscount(key[3]) and x.counted:
                L = CPU
            if L == CPU:
                if good[0]:
                    x = x._replace(idle=True)
                if good[1] and x.busy:
                    x = x._replace(told=True)
                if good[2] and x.busy:
                    x = x._replace(on=True)
                x = x._replace(loop=tuple(y for y in x.loop if y[0] != h), r=tuple(y for y in x.r if y[0] != h))
        return x

    def back(x, h, again, T):
        lp, r = dict(x.loop), dict(x.r)
        x = x._replace(ask=lasting(x.ask))
        if x.p is not None and (again or h in cs and x.p[1] is None):
            R.bad(fn, fn.blocks[h].ins[-1].where(), 'a task taken from the group is not given to one worker as its own', T.trace())
            x = x._replace(p=None)
        if h not in cs:
            return x
        if not again:
            lp[h], r[h] = (True, True, True), (0, 0, 0)
        elif h in lp:
            lp[h], r[h] = tuple(a and bool(b) for a, b in zip(lp[h], r[h])), (0, 0, 0)
        return x._replace(loop=tuple(sorted(lp.items())), r=tuple(sorted(r.items())))

    def ex(x, t, T, rv):
        R.check(x.p is None, fn, t.where(), 'a task taken from the group is lost', trace=T.trace())
        R.check(not x.busy or x.told and x.on, fn, t.where(), 'not each worker is told of the group and started', trace=T.trace())

    def stale(x, pred):
        return x if x.p is None or not mentions(x.p[0], pred) else x._replace(p=x.p)
    keep = lambda y: y[0] == 'fld' and y[3] == 'is_main'
    Track(fn, step=step, edge=edge, back=back, exit=ex, stale=stale, x0=P(False, (), False, False, False, (), z, False, False, None, None, False), pure=QUIET,
          track_mem=lambda a: False, about=lambda q: mentions(q, keep)).run()


def popped(v):
    """the call an element was popped by"""
    for y in walk(v):
        if y[0] == 'call' and y[1] in ('data_pop', 'data_shift'):
            return y
    return None


def room(fn, T, v, ask, busy):
    """a list with room for all the tasks of the group"""
    if v[0] != 'call' or v[1] != 'data_reserve' or busy:
        return False
    n = T.ev(fn.defs[v[2]].ops[1])
    n = strip(n)
    if n[0] == 'bin' and n[1] == 'add':
        for a, b in ((n[2], n[3]), (n[3], n[2])):
            if b[0] == 'int' and b[1] >= 0:
                n = strip(a)
                break
    L = sized(ask, n)
    return L is not None and member(L) == 'group'


RULES = [start, made, ended, wait, begun, post]

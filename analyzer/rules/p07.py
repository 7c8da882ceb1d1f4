"""P07: how long the record of a task lives."""
from rules.common import *
from flow import *
from track import Track, root, nodest

TEXT = [
    ('release', 'the memory of a task is released only where its mark was found intact before, and the mark is overwritten or the place it was '
                'taken from is cleared; nothing touches the record afterwards'),
    ('states', 'task_delete releases a task exactly in the states of one that is not running, suspended before its first run or asleep'),
    ('deleting', 'each deletion: the scheduler deletes a task it saw ended, not waited for and not referred to; a waiter one it saw ended, taken '
                 'out of its group; else the task is a referenced one of this thread whose body did not finish, or taken from a place then cleared'),
    ('forgotten', 'each place that remembers a created task is compared with an ended one and cleared before the scheduler deletes it'),
    ('disposed', 'each ended task is disposed of once: deleted if nobody waits for or refers to it, collected if it is referred to, else left to the waiter'),
    ('waited', 'a task is marked as waited for exactly where it is put in the group of the running task'),
    ('held', 'no record of a task is used after something that may have run the scheduler, unless it is the running one, waited for or referred to'),
]
SWITCH0 = {'task_switch', 'suspend', 'task_yielding', 'yield', 'resume', 'delay', 'tasks_schedulering', 'events_once', 'async_run'}
THRD = ('call', '__thrd', '')
REWRITTEN = {'active_handle', 'current_handle', 'main_handle', 'running'}       # set anew by every switch or round
QUIET = {'is_data', 'is_ptr_usable', 'array', 'arrays', 'data_append', 'atomic_spinlock_lock', 'atomic_spinlock_unlock', 'events_nsec', 'data_size',
         'data_reserve', 'data_lock', 'task_is_terminated', 'tasks_info', 'active_info', 'ex_local', 'ex_update', 'events_free', 'data_type'}
FIELDS = {'halt', 'waiting', 'referenced', 'magic_number', 'status', 'sleep_handle', 'user_data', 'err_code', 'group_active', 'group_finish', 'group'}
KEEPQ = ['__thrd_waitfor', 'task_take', 'tasks_schedulering', '__tasks_pool_main']


def view(R):
    return R.prog.std(keep=KEEPQ)


def tasks_of(fn):
    """expressions used as task records in a function"""
    out = set()
    for i in fn.instrs():
        for o in list(i.ops):
            if isinstance(o, tuple):
                for y in walk(S(fn.ex(o))):
                    if y[0] == 'fld' and y[2] == 'events_task_s':
                        out.add(S(y[1]))
    return out


def magic(m):
    """the value that marks a live task: the one given to it when it is made"""
    out = set()
    for fn in funcs(m):
        st = [i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'magic_number', 'events_task_s')]
        if st and any(i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'func', 'events_task_s') for i in fn.instrs()):
            for i in st:
                out.add(S(fn.ex(i.ops[0])))
    if len(out) != 1 or min(out)[0] != 'int':
        raise AnalysisBroken('the mark of live tasks is not a constant')
    return out.pop()


def lds(e, f, v):
    """e is the value read from field f of v"""
    return e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == f and nodest(e[1][1]) == nodest(v)


def truthy(T, v, f):
    """is a flag of v set, as far as known"""
    a = T.mem(('fld', v, None, f))
    if a is not None:
        if a[0] == 'int':
            return a[1] != 0
        r = T.null(a)
        if r is not None:
            return not r
        r = T.holds(('cmp', 'ne', a, ('int', 0)))
        if r is not None:
            return r
    return None


def live(T, v, M):
    return any(k[0] == 'eq' and p and M in k[1:3] and any(lds(y, 'magic_number', v) for y in k[1:3]) for k, p in T.F.items())


def touches(fn, i, T, vs):
    """the record among vs that an instruction reaches into or hands on"""
    if i.op == 'load':
        a = T.ev(i.ops[0])
        r = {nodest(y[1]) for y in walk(a) if y[0] in ('fld', 'idx')}
        return next((v for v in vs if v in r), None)
    if i.op in ('store', 'atomicrmw', 'cmpxchg'):
        a = T.ev(i.ops[1 if i.op == 'store' else 0])
        r = {nodest(y[1]) for y in walk(a) if y[0] in ('fld', 'idx')}
        if i.op == 'store':
            r.add(nodest(T.ev(i.ops[0])))
        return next((v for v in vs if v in r), None)
    if i.op == 'call' and not (i.attr['name'] or '').startswith('llvm.'):
        r = {nodest(T.ev(o)) for o in i.ops if isinstance(o, tuple)}
        return next((v for v in vs if v in r), None)
    return None


# ------------------------------------------------------------------------------------------------------ release
def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def frees(fn):
    ts = tasks_of(fn)
    return {i for i in fn.instrs() if name(i) == 'events_free' and S(fn.ex(i.ops[0])) in ts}


def release(R):
    R.cur = 'release'
    m = R.prog.std()
    M = magic(m)
    k = 0
    for fn in funcs(m):
        fr = frees(fn)
        if not fr or fn.name == 'create_task':
            continue
        k += len(fr)
        R.saw(fn)
        release_one(R, fn, fr, M)
    R.floor(k, 4, 'places that release a task')


def release_one(R, fn, fr, M):
    # x = (released records, those whose place is still to be cleared)
    def step(x, i, T):
        gone, due, all_ = x
        if i in fr:
            v = T.ev(i.ops[0])
            n = nodest(v)
            if any(k[0] == 'eq' and p and k[1][0] == 'call' and k[1][1] == 'data_type' and k[2][0] == 'int' and
                   n in argof(fn, T, k[1]) for k, p in T.F.items()):
                return x                    # known to be something else
            R.check(n not in gone, fn, i.where(), 'a task is released twice', trace=T.trace())
            R.check(live(T, v, M), fn, i.where(), 'a task is released that was not found to be live', trace=T.trace())
            mk = T.mem(('fld', v, None, 'magic_number'))
            if not (mk is not None and mk[0] == 'int' and mk != M):
                due = due + (n,)
            return (gone + (n,), due, all_ + (n,))
        if gone:
            if i.op == 'store' and due:
                a = nodest(T.ev(i.ops[1]))
                due = tuple(d for d in due if not (d[0] == 'load' and d[1] == a and T.ev(i.ops[0])[0] == 'int'))
            if i.op == 'store' and any(g[0] == 'load' and g[1] == nodest(T.ev(i.ops[1])) for g in gone):
                gone = tuple(g for g in gone if not (g[0] == 'load' and g[1] == nodest(T.ev(i.ops[1]))))
                return (gone, due, all_)
            u = touches(fn, i, T, gone)
            R.check(u is None, fn, i.where(), 'the record of a task is used after its release', trace=T.trace())
        return (gone, due, all_)

    def stale(x, pred):
        ok = lambda g: not mentions(g, pred)
        return tuple(filter(ok, x[0])), x[1], tuple(filter(ok, x[2]))

    def left(x, T, i):
        for k, p in T.F.items():
            if k[0] == 'eq' and p and M in k[1:3]:
                for y in k[1:3]:
                    if y[0] == 'ld' and y[1][0] == 'fld' and y[1][1][0] == 'ld':
                        R.check(nodest(y[1][1]) in x[2], fn, i.where(), 'a task found live at the end of its thread is not released', trace=T.trace())

    def ex(x, t, T, rv):
        left(x, T, t)
        R.check(not x[1], fn, t.where(), 'a released task keeps its mark, and the place it was taken from keeps it', trace=T.trace())

    def back(x, h, again, T):
        if again:
            left(x, T, fn.blocks[h].ins[-1])
            R.check(not x[1], fn, fn.blocks[h].ins[-1].where(), 'a released task keeps its mark, and the place it was taken from keeps it', trace=T.trace())
        return x
    keep = lambda y: y[0] == 'fld' and y[3] in ('magic_number', 'sleep_handle')
    Track(fn, step=step, exit=ex, stale=stale, back=back, x0=((), (), ()), pure=QUIET, track_mem=keep,
          about=lambda q: mentions(q, lambda y: y[0] == 'fld' and y[3] == 'magic_number' or y[0] == 'call' and y[1] == 'data_type'),
          keep=lambda n, a: n in QUIET or n in ('events_free',)).run()


# ------------------------------------------------------------------------------------------------------ states
def states(R):
    R.cur = 'states'
    m = R.prog.std()
    M = magic(m)
    fn = m.fn('task_delete').ensure()
    R.saw(fn)
    fr = frees(fn)
    R.floor(len(fr), 1, 'releases in task_delete')
    for s in (-1, 0, 1, 2, 3, 4, 5, 6):
        may = s in (-1, 0, 1, 5)

        def init(a, s=s):
            if a[0] == 'fld' and a[3] == 'status':
                return ('int', s)
            if a[0] == 'fld' and a[3] == 'magic_number':
                return M
            return None

        def step(x, i, T):
            if i in fr:
                R.check(may, fn, i.where(), 'a task in state %d is released' % s, trace=T.trace())
                return 1
            if i.op == 'call' and name(i) not in QUIET and any(T.ev(o) == ('arg', 0) for o in i.ops if isinstance(o, tuple)):
                return None if name(i) in ('abort', 'exit') else x
            return x

        def ex(x, t, T, rv):
            if T.null(('arg', 0)) is not True and may:
                R.check(x == 1, fn, t.where(), 'a task that has ended (state %d) is not released' % s, trace=T.trace())
        Track(fn, step=step, exit=ex, x0=0, init=init, pure=QUIET | {'cerr'}).run()


# ------------------------------------------------------------------------------------------------------ deleting
def places(m):
    """globals and thread-local places that remember a task of the library's own making"""
    out = {}
    for fn in funcs(m):
        ts = tasks_of(fn)
        for i in fn.instrs():
            if i.op != 'store':
                continue
            a, v = S(fn.ex(i.ops[1])), S(fn.ex(i.ops[0]))
            if v[0] in ('int', 'arg') or not (a[0] == 'g' or a[0] == 'fld' and a[1] == THRD):
                continue
            if a[0] == 'fld' and a[3] in REWRITTEN:
                continue
            made = v[0] == 'call' and v[1] == 'create_task' or v in ts and fn.name == 'create_task' or v in ts and not mentions(
                v, lambda y: y[0] == 'load') and v[0] == 'call' and v[1] not in ('active_task', 'active_scheduler_task')
            if made:
                out[('fld', THRD, None, a[3]) if a[0] == 'fld' else a] = i
    return out


def deleting(R):
    R.cur = 'deleting'
    m = view(R)
    pl = places(m)
    k = 0
    for fn in funcs(m):
        ds = {i for i in fn.instrs() if name(i) == 'task_delete'}
        if not ds:
            continue
        k += len(ds)
        R.saw(fn)
        deleting_one(R, m, fn, ds, pl)
    R.floor(k, 5, 'deletions of a task')
    R.cur = 'forgotten'
    R.floor(len(pl), 2, 'places that remember a task')


def deleting_one(R, m, fn, ds, pl):
    seen = [0]

    # x = (terminated asked: {(call, v)}, taken out: arrays, deleted, ran)
    def step(x, i, T):
        asked, out, gone, ran = x
        if gone:
            R.cur = 'deleting'
            u = touches(fn, i, T, gone)
            R.check(u is None, fn, i.where(), 'the record of a task is used after its deletion', trace=T.trace())
            if u is not None:
                return None
        if i.op == 'store' and T.ev(i.ops[1])[0] == 'g':
            p = ('cleared', T.ev(i.ops[1]))
            out = out | {p} if T.ev(i.ops[0]) == ('int', 0) else out - {p}
            x = (asked, out, gone, ran)
        if name(i) == 'task_is_terminated':
            return (frozenset(a for a in asked if a[0] != i.dest) | {(i.dest, nodest(T.ev(i.ops[0])))}, out, gone, ran)
        if name(i) == 'data_remove':
            return (asked, out | {('out', nodest(T.ev(i.ops[0])), nodest(T.ev(i.ops[1])))}, gone, ran)
        if name(i) in SWITCH0 or i.op == 'call' and i.attr['name'] is None:
            return (frozenset(), frozenset(o for o in out if o[0] == 'cleared'), gone, ran)
        if i in ds:
            v = T.ev(i.ops[0])
            n = nodest(v)
            R.cur = 'deleting'
            why = reason(fn, m, T, v, n, asked, out)
            R.check(why, fn, i.where(), 'a task is deleted that may not have ended, or that somebody still waits for or refers to', trace=T.trace())
            if why == 'ended':
                R.cur = 'forgotten'
                known = [forgotten(T, v, p) for p in pl]
                same = 'same' in known
                for p, kn in zip(pl, known):
                    R.check(kn is not None or same, fn, i.where(), 'an ended task is deleted without a look whether %s is it' % (p[3] if p[0] == 'fld' else p[1]),
                            trace=T.trace())
                    R.check(kn != 'kept', fn, i.where(), 'an ended task is deleted while %s still is it' % (p[3] if p[0] == 'fld' else p[1]), trace=T.trace())
                    seen[0] += 1
                R.cur = 'deleting'
            return (asked, out, gone | {n}, ran)
        return x

    def stale(x, pred):
        return (frozenset(a for a in x[0] if not mentions(a[1], pred)), frozenset(o for o in x[1] if not mentions(o, pred)),
                frozenset(g for g in x[2] if not mentions(g, pred)), x[3])

    def over(x, T, i):
        R.cur = 'disposed'
        for d, w in x[0]:
            if T.null(('call', 'task_is_terminated', d)) is False:
                R.check(w in x[2], fn, i.where(), 'a task is left that its waiter saw ended', trace=T.trace())

    def back(x, h, again, T):
        if waits:
            over(x, T, fn.blocks[h].ins[-1])
        return (frozenset(), frozenset(o for o in x[1] if o[0] == 'cleared'), frozenset(), x[3]) if again else x

    def ex(x, t, T, rv):
        if waits:
            over(x, T, t)
    waits = any(name(i) == 'data_remove' for i in fn.instrs())
    gl = {p[1] for p in pl if p[0] == 'g'}
    fl = {p[3] for p in pl if p[0] == 'fld'}
    keep = lambda y: y[0] == 'fld' and y[3] in FIELDS | fl or y[0] == 'g' and y[1] in gl or y[0] == 'call' and y[1] in ('task_is_terminated', 'is_data', 'create_task')
    Track(fn, step=step, stale=stale, back=back, exit=ex, x0=(frozenset(), frozenset(), frozenset(), 0), pure=QUIET,
          track_mem=lambda a: keep(a) or a[0] == 'alloca', about=lambda q: mentions(q, keep),
          keep=lambda n, a: a[0] == 'fld' and a[3] == 'referenced').run()


def reason(fn, m, T, v, n, asked, out):
    h = truthy(T, v, 'halt')
    if h is True:
        return 'ended' if truthy(T, v, 'waiting') is False and truthy(T, v, 'referenced') is False else None
    for d, w in asked:
        if w == n and T.null(('call', 'task_is_terminated', d)) is False:
            a = n[1] if n[0] == 'load' and n[1][0] == 'idx' else ('idx', None, None)
            return 'waited' if ('out', a[1], a[2]) in out and truthy(T, v, 'waiting') is False else None
    if n[0] == 'call' and n[1] == 'create_task' or v[0] == 'call' and v[1] == 'create_task':
        # a task made here: referred to by this function, and its body has not come to its end
        if truthy(T, v, 'referenced') is True and unfinished(fn, m, T, v):
            return 'own'
        return None
    if n[0] == 'load' and n[1][0] == 'g' and ('cleared', n[1]) in out:
        return 'taken'
    return None


def unfinished(fn, m, T, v):
    """a field of the task that its body clears at its end is still set"""
    d = fn.defs.get(v[2])
    body = next((o[1] for o in d.ops if o[0] == 'g' and o[1] in m.fns), None) if d is not None else None
    if body is None:
        return False
    b = m.fns[body].ensure()
    for f in ('user_data',):
        set_ = any(k[0] == 'eq' and k[2] == ('int', 0) and not p and (mentions(k[1], lambda y: lds(y, f, v)) or k[1][0] == 'call' and k[1][1] == 'is_data' and
                   any(lds(a, f, v) for a in argof(fn, T, k[1]))) for k, p in T.F.items())
        if not set_:
            continue
        ok = [True]

        def step(x, i, B):
            if i.op == 'store' and field_of(B.ev(i.ops[1]), f):
                return 1 if B.ev(i.ops[0]) == ('int', 0) else 0
            return x

        def ex(x, t, B, rv):
            if not x:
                ok[0] = False
        Track(b, step=step, exit=ex, x0=0, track_mem=lambda a: False, about=lambda q: False).run()
        if ok[0]:
            return True
    return False


def argof(fn, T, c):
    """the first argument of a call, as it was"""
    d = fn.defs.get(c[2])
    if d is None or not d.ops:
        return ()
    return nodest(T.ev(d.ops[0])), nodest(S(fn.ex(d.ops[0])))


def forgotten(T, v, p):
    """how a place stands to a task about to be deleted: 'same' and cleared, 'kept', 'other', None unknown"""
    now = T.mem(p)
    n = nodest(v)
    eq = [q for k, q in T.F.items() if k[0] == 'eq' and any(nodest(a) == n and b[0] in ('ld', 'load') and nodest(b[1]) == nodest(p) or
          nodest(a) == n and now is not None and b == now and b[0] != 'int' for a, b in ((k[1], k[2]), (k[2], k[1])))]
    if True in eq:
        return 'same' if now is not None and now[0] == 'int' else 'kept'
    if False in eq or now is not None and now[0] == 'int':
        return 'other'
    return None


# ------------------------------------------------------------------------------------------------------ disposed
def disposed(R):
    R.cur = 'disposed'
    m = view(R)
    k = 0
    for fn in funcs(m):
        rn = [i for i in fn.instrs() if i.op == 'store' and thrd_field(S(fn.ex(i.ops[1])), 'running') and S(fn.ex(i.ops[0])) != ('int', 0)]
        if not rn:
            continue
        k += 1
        R.saw(fn)
        disposed_one(R, fn, set(rn))
    R.floor(k, 1, 'functions that run the next task')


def disposed_one(R, fn, rn):
    # x = (task of this round, deleted, collected)
    def step(x, i, T):
        if i in rn:
            over(x, T, i)
            return (T.ev(i.ops[0]), 0, 0)
        if x[0] is not None and name(i) == 'task_delete' and T.ev(i.ops[0]) == x[0]:
            return (x[0], x[1] + 1, x[2])
        if x[0] is not None and name(i) == 'data_gc' and T.ev(i.ops[0]) == x[0]:
            return (x[0], x[1], x[2] + 1)
        return x

    def over(x, T, i):
        t, d, c = x
        if t is None:
            return
        h, w, r = truthy(T, t, 'halt'), truthy(T, t, 'waiting'), truthy(T, t, 'referenced')
        at = lambda c, s: R.check(c, fn, i.where(), s, trace=T.trace())
        at(d + c <= 1, 'a task is disposed of twice')
        at(not (d + c) or h is True, 'a task is disposed of that was not seen to have ended')
        if h is False:
            return
        at(h is not None, 'whether the task has ended is not looked at after it ran')
        if d + c == 0:
            at(w is True and r is not True, 'an ended task that nobody waits for is neither deleted nor collected')
        elif c:
            at(r is True, 'a task is collected that nobody refers to')

    def back(x, h, again, T):
        over(x, T, fn.blocks[h].ins[-1])
        return (None, 0, 0)

    def ex(x, t, T, rv):
        over(x, T, t)
    keep = lambda y: y[0] == 'fld' and y[3] in ('halt', 'waiting', 'referenced')
    Track(fn, step=step, exit=ex, back=back, x0=(None, 0, 0), pure=QUIET | {'task_delete', 'data_gc'}, track_mem=keep, about=lambda q: mentions(q, keep) or q[0] == 'eq' and dequeued(nodest(q[1])),
          keep=lambda n, a: n in ('task_delete', 'data_gc')).run()


# ------------------------------------------------------------------------------------------------------ waited
def isgroup(e):
    return e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == 'group'


def waited(R):
    R.cur = 'waited'
    m = view(R)
    ts = {}
    k = 0
    for fn in funcs(m):
        st = {i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'waiting', 'events_task_s') and S(fn.ex(i.ops[0])) != ('int', 0) and fn.name != 'create_task'}
        ap = {i for i in fn.instrs() if name(i) in ('data_append', 'data_append_item') and mentions(S(fn.ex(i.ops[0])), isgroup)}
        if not st and not ap:
            continue
        k += 1
        R.saw(fn)
        waited_one(R, fn, st, ap)
    R.floor(k, 1, 'places that put a task in a group')


def waited_one(R, fn, st, ap):
    handing = {'enqueue_tasks', 'deque_push'} | SWITCH0

    # x = (marked, appended)
    def step(x, i, T):
        if i in st:
            v = nodest(T.ev(i.ops[1])[1])
            return (frozenset(p for p in x[0] if p[0] != v) | {(v, T.ev(i.ops[0]))}, x[1])
        if i in ap:
            g = next((y for y in walk(T.ev(i.ops[0])) if isgroup(y)), None)
            own = g is not None and mentions(g, lambda y: y[0] == 'call' and y[1] == 'active_task' or y[0] == 'fld' and y[3] in ('active_handle', 'running'))
            R.check(own, fn, i.where(), 'a task is put in the group of another than the running task', trace=T.trace())
            v = T.ev(i.ops[1]) if len(i.ops) > 1 else None
            return (x[0], x[1] | {nodest(v)})
        if name(i) in handing:
            due(x, T, i)
        return x

    def due(x, T, i):
        for v, w in x[0]:
            z = T.null(w)
            if z is None:
                z = T.holds(w)
                z = None if z is None else not z
            if z is not True:
                R.check(v in x[1], fn, i.where(), 'a task is marked as waited for that is in no group', trace=T.trace())
            if z is not False and v in x[1]:
                R.check(False, fn, i.where(), 'a task of a group is not marked as waited for', trace=T.trace())
        for v in x[1] - {v for v, w in x[0]}:
            R.check(False, fn, i.where(), 'a task is put in a group and not marked as waited for', trace=T.trace())
        R.ok(i.where())
        return x

    def ex(x, t, T, rv):
        due(x, T, t)
    Track(fn, step=step, exit=ex, x0=(frozenset(), frozenset()), pure=QUIET, track_mem=lambda a: a[0] == 'alloca' or a[0] == 'fld' and a[3] in ('group_active', 'group_finish', 'task_group'),
          about=lambda q: mentions(q, lambda y: y[0] == 'fld' and y[3] in ('group_active', 'group_finish', 'task_group'))).run()


# ------------------------------------------------------------------------------------------------------ held
def switching(m):
    """functions that may run other tasks"""
    sw = set(SWITCH0)
    grew = True
    cs = {fn.name: {i.attr['name'] for i in fn.instrs() if i.op == 'call' and i.attr['name']} for fn in funcs(m)}
    for fn in funcs(m):
        if any(i.op == 'call' and i.attr['name'] is None and mentions(S(fn.ex(i.attr['callee'])), lambda y: y == ('g', 'coro_swap')) for i in fn.instrs()):
            sw.add(fn.name)
    while grew:
        grew = False
        for f, c in cs.items():
            if f not in sw and c & sw:
                sw.add(f)
                grew = True
    return sw


def held(R):
    R.cur = 'held'
    m = view(R)
    sw = switching(m)
    k = 0
    for fn in funcs(m):
        if not any(name(i) in sw for i in fn.instrs()):
            continue
        ts = tasks_of(fn)
        if not ts:
            continue
        R.saw(fn)
        k += 1
        held_one(R, fn, sw)
    R.floor(k, 10, 'functions that use tasks and may run others')


def own(e):
    """the running task itself, or a task of a group that waits for it"""
    n = nodest(e)
    if n[0] == 'call' and n[1] in ('active_task', 'active_scheduler_task'):
        return True
    if n[0] == 'load' and n[1][0] == 'fld' and n[1][1] == THRD and n[1][3] in REWRITTEN:
        return True
    return False


def member(e):
    """an element of a group, or of the list of jobs of a waiting thread"""
    return mentions(e, lambda y: y[0] in ('ld', 'load') and y[1][0] == 'fld' and y[1][3] in ('group', 'jobs'))


def held_one(R, fn, sw):
    # x = records that may be gone
    def step(x, i, T):
        old, risky = x
        if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            a = T.ev(i.ops[1 if i.op == 'store' else 0])
            raw = fn.ex(i.ops[1 if i.op == 'store' else 0])
            if raw[0] == 'fld' and raw[2] == 'events_task_s' and a[0] == 'fld':
                v = a[1]
                R.check(v not in risky, fn, i.where(), 'the record of a task is used after others ran, and may be gone', trace=T.trace())
                if v in risky:
                    return None
                if not own(v) and not member(v) and not dequeued(nodest(v)) and v[0] not in ('alloca', 'g'):
                    if i.op == 'store' and a[3] == 'referenced' and T.ev(i.ops[0]) not in (('int', 0),):
                        return (old | {('kept', v)}, risky)
                    return (old | {('seen', v)}, risky)
        if i.op == 'call' and i.attr['name'] in ('create_task',):
            return (old | {('seen', ('call', 'create_task', i.dest))}, risky)
        if name(i) in sw:
            kept = {v for a, v in old if a == 'kept'}
            return (old, risky | {v for a, v in old if a == 'seen' and v not in kept})
        return x

    def stale(x, pred):
        return (frozenset(o for o in x[0] if not mentions(o[1], pred)), frozenset(v for v in x[1] if not mentions(v, pred)))
    Track(fn, step=step, stale=stale, x0=(frozenset(), frozenset()), track_mem=lambda a: a[0] == 'alloca',
          about=lambda q: False, pure=QUIET).run()


def dequeued(v):
    """off the run queue and not yet run to its end: nobody else can delete it"""
    return v[0] == 'load' and v[1][0] == 'fld' and v[1][3] == 'head'


RULES = [start, release, states, deleting, disposed, waited, held]

"""P25: locks: each is released on every path, nothing waits or jumps away while one is held, and what is shared is changed under its own."""
from rules.common import *
from flow import *
from track import Track, root, nodest
from rules.p07 import switching

TEXT = [
    ('excl', 'taking a lock ends only after its own exchange found it free, as an acquire; giving it back is a release store of free'),
    ('pair', 'on every path a lock that is taken is released once, in the same function; none is taken twice or released without being held'),
    ('calm', 'while a lock is held nothing lets other tasks run, waits, throws, calls back user code or takes another lock'),
    ('guard', 'what all threads share and is changed under a lock in one place is changed under it in all, other than by starting and ending the library; a lock that moves with the list it is part of does not guard what moves it'),
    ('born', 'the lock of a new record is free before the record is handed on'),
]
LOCK, UNLOCK = 'atomic_spinlock_lock', 'atomic_spinlock_unlock'
LISTOPS = {'data_append', 'data_append_item', 'data_append_double', 'data_append_signed', 'data_append_string', 'data_append_unsigned', 'data_remove', 'data_shift', 'data_pop',
           'data_insert', 'data_erase', 'data_reserve', 'data_reset'}
MOVES = {'data_append', 'data_append_item', 'data_append_double', 'data_append_signed', 'data_append_string', 'data_append_unsigned', 'data_reserve', 'data_insert'}
BLOCK = {'nanosleep', 'usleep', 'sleep', 'poll', 'select', 'epoll_wait', 'os_sleep', 'os_join', 'pthread_join', 'thrd_join', 'accept', 'read', 'recv', 'recvfrom', 'waitpid',
         'wait', 'getaddrinfo', 'pause', 'sigwait', 'sem_wait', 'pthread_mutex_lock', 'pthread_cond_wait', 'events_once', 'promise_wait', 'future_wait', 'sched_yield'}
THROW = {'ex_throw', 'longjmp', 'siglongjmp', '__longjmp_chk', 'panic', 'exit', 'pthread_exit', 'raise'}
KNOWN = {('sys_event', 'results'), ('sys_event', 'gc'), ('the queues of other threads',)}      # these at least
HEAP = {'events_malloc', 'events_calloc', 'events_realloc', 'events_free', 'events_memalign'}


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def norm(fn, e, seen=()):
    """what a list is, whatever it was moved to"""
    e = S(e)
    if e[0] == 'call' and e[1] in MOVES and e[2] in fn.defs and e not in seen:
        return norm(fn, fn.ex(fn.defs[e[2]].ops[0]), seen + (e,))
    if e[0] == 'phi' and e[1] in fn.defs and e not in seen:
        r = {norm(fn, fn.ex(v), seen + (e,)) for v, _ in fn.defs[e[1]].attr['inc']} - {('phi', e[1])}
        return r.pop() if len(r) == 1 else e
    return nodest(e)


def lockid(fn, i):
    e = S(fn.ex(i.ops[0]))
    if e[0] == 'call' and e[1] == 'data_lock' and e[2] in fn.defs:
        return ('own', norm(fn, fn.ex(fn.defs[e[2]].ops[0])))
    return ('lock', nodest(e))


# ------------------------------------------------------------------------------------------------------ excl
def excl(R):
    R.cur = 'excl'
    m = R.prog.base()
    for n in (LOCK, UNLOCK):
        if n not in m.fns:
            raise AnalysisBroken('no function %s' % n)
    fn = m.fns[LOCK].ensure()
    R.saw(fn)

    def own(a):
        return a == ('arg', 0)

    # x = what the last own exchange found: None none yet, or its result
    def step(x, i, T):
        if i.op == 'atomicrmw' and own(T.ev(i.ops[0])):
            R.check(i.attr['rmw'] in ('xchg', 'or') and T.ev(i.ops[1]) not in (('int', 0),), fn, i.where(), 'the lock is not marked as taken', trace=T.trace())
            R.check(i.attr.get('order') in ('acquire', 'acq_rel', 'seq_cst'), fn, i.where(), 'the lock is taken without acquire ordering', trace=T.trace())
            return (('rmw', i.dest), False)
        if i.op == 'cmpxchg' and own(T.ev(i.ops[0])):
            R.check(T.ev(i.ops[1]) == ('int', 0) and T.ev(i.ops[2]) != ('int', 0), fn, i.where(), 'the lock is not taken from free', trace=T.trace())
            R.check('acquire' in i.text or 'acq_rel' in i.text or 'seq_cst' in i.text, fn, i.where(), 'the lock is taken without acquire ordering', trace=T.trace())
            return (('cas', i.dest), False)
        if i.op == 'store' and own(T.ev(i.ops[1])):
            R.bad(fn, i.where(), 'taking a lock overwrites it', T.trace())
        return x

    def edge(x, key, pol, i, T):
        if x[0] is not None:
            if x[0][0] == 'rmw':
                t = truth(key, pol, lambda v: v == x[0] or v[0] in ('trunc', 'zext') and v[-1] == x[0])
                if t is not None:
                    return (x[0], not t)
            else:
                t = truth(key, pol, lambda v: mentions(v, lambda y: y == x[0]))
                if t is not None:
                    return (x[0], t)
        return x

    def back(x, h, again, T):
        return (None, False)

    def ex(x, t, T, rv):
        R.check(x[1], fn, t.where(), 'a lock counts as taken that was not found free', trace=T.trace())
    Track(fn, step=step, edge=edge, exit=ex, x0=(None, False), track_mem=lambda a: False).run()
    R.floor(1, 1, 'ends of taking a lock')
    fn = m.fns[UNLOCK].ensure()
    R.saw(fn)

    def step2(x, i, T):
        if i.op == 'store' and own(T.ev(i.ops[1])):
            R.check(T.ev(i.ops[0]) == ('int', 0), fn, i.where(), 'a lock given back is not free', trace=T.trace())
            R.check(i.attr.get('order') in ('release', 'seq_cst'), fn, i.where(), 'a lock is given back without release ordering', trace=T.trace())
            return x + 1
        if i.op == 'atomicrmw' and own(T.ev(i.ops[0])):
            R.check(i.attr['rmw'] in ('xchg', 'and') and T.ev(i.ops[1]) == ('int', 0), fn, i.where(), 'a lock given back is not free', trace=T.trace())
            R.check(i.attr.get('order') in ('release', 'acq_rel', 'seq_cst'), fn, i.where(), 'a lock is given back without release ordering', trace=T.trace())
            return x + 1
        return x

    def ex2(x, t, T, rv):
        R.check(x >= 1, fn, t.where(), 'a lock is not given back', trace=T.trace())
    Track(fn, step=step2, exit=ex2, x0=0, track_mem=lambda a: False).run()


# ------------------------------------------------------------------------------------------------------ pair, calm
def closure(m, seed):
    """functions that may reach one of the seeds: name -> the one reached"""
    out = {}
    for fn in m.fns.values():
        fn.ensure()
        for i in fn.instrs():
            if i.op == 'call' and i.attr['name'] in seed:
                out.setdefault(fn.name, i.attr['name'])
    grew = True
    cs = {fn.name: {i.attr['name'] for i in fn.instrs() if i.op == 'call' and i.attr['name']} for fn in m.fns.values()}
    while grew:
        grew = False
        for f, c in cs.items():
            if f not in out and f not in seed:
                h = next((x for x in sorted(c) if x in out and x not in HEAP and x not in LISTOPS), None)
                if h:
                    out[f] = out[h]
                    grew = True
    return out


def users(m):
    """functions that may call what the user gave: name -> where"""
    out = {}
    for fn in m.fns.values():
        if SKIP.match(fn.name) or fn.name in HEAP or fn.name in LISTOPS:
            continue
        for i in fn.instrs():
            if i.op == 'call' and i.attr['name'] is None and i.attr.get('callee', ('',))[0] != 'asm':
                out.setdefault(fn.name, i.where())
    return out


def held(R):
    m = R.prog.std()
    sw = switching(m)
    bl, th, lk = closure(m, BLOCK), closure(m, THROW), closure(m, {LOCK})
    us = users(m)
    us = dict(us, **closure(m, set(us)))
    k = 0
    for fn in funcs(m):
        if calls(fn, LOCK, UNLOCK) and fn.name not in (LOCK, UNLOCK):
            k += len(calls(fn, LOCK))
            R.cur = 'pair'
            R.saw(fn)
            held_one(R, fn, sw, bl, th, lk, us)
    R.cur = 'pair'
    R.floor(k, 12, 'places that take a lock')


def held_one(R, fn, sw, bl, th, lk, us):
    cur = lambda r, c, i, msg, T: (setattr(R, 'cur', r), R.check(c, fn, i.where(), msg, trace=T.trace()))
    init = not calls(fn, LOCK) and fn.name in reach(fn.mod, ('events_init',))          # it only sets a lock free: part of making it

    def step(x, i, T):
        n = name(i)
        if n == LOCK:
            l = lockid(fn, i)
            cur('pair', l not in x, i, 'a lock is taken again by who holds it', T)
            cur('calm', not x, i, 'a lock is taken while another is held', T)
            return x if l in x else x + (l,)
        if n == UNLOCK:
            l = lockid(fn, i)
            b = T.ev(i.ops[0])
            while b[0] in ('fld', 'idx'):
                b = b[1]
            if init or b[0] == 'call' and b[1] in HEAP and l not in x:
                return x
            cur('pair', l in x, i, 'a lock is released that is not held', T)
            return tuple(y for y in x if y != l)
        if x and i.op == 'call' and not (n or '').startswith('llvm.') and i.attr.get('callee', ('',))[0] != 'asm':
            cur('calm', n is not None, i, 'what the user gave is called while a lock is held', T)
            if n is not None and n not in HEAP and n not in LISTOPS:
                cur('calm', n not in sw, i, 'other tasks may run while a lock is held', T)
                cur('calm', n not in BLOCK and n not in bl, i, 'a lock is held while waiting', T)
                cur('calm', n not in THROW and n not in th, i, 'a lock may be left held by a jump (%s)' % th.get(n, n), T)
                cur('calm', n not in lk, i, 'a lock may be taken while another is held', T)
                cur('calm', n not in us, i, 'what the user gave may be called while a lock is held', T)
        return x

    def ex(x, t, T, rv):
        cur('pair', not x, t, 'a lock is still held at the end', T)
    simple = lambda v: v[0] == 'arg' or v[0] in ('ld', 'load') and v[1][0] == 'fld' and v[1][1][0] == 'arg'
    Track(fn, step=step, exit=ex, x0=(), track_mem=lambda a: a[0] == 'alloca', about=lambda q: isinstance(q[1], tuple) and simple(q[1])).run()



# ------------------------------------------------------------------------------------------------------ guard
def where(fn, i, put):
    """the global place an instruction changes, by itself or as a list or table that is kept there"""
    if i.op in ('store', 'atomicrmw', 'cmpxchg'):
        a = S(fn.ex(i.ops[1 if i.op == 'store' else 0]))
        while a[0] == 'idx':
            a = a[1]
            if a in put:
                return put[a]
        return globe(fn, S(fn.ex(i.ops[1 if i.op == 'store' else 0])))
    n = name(i)
    if n in LISTOPS:
        e = norm(fn, fn.ex(i.ops[0]))
        return globe(fn, e[1]) if e[0] == 'load' else None
    if n == 'deque_push':
        return ('the queues of other threads',)
    return None


def globe(fn, a):
    p = []
    a = nodest(a)
    while a[0] in ('fld', 'idx'):
        if a[0] == 'fld':
            p.append(a[3])
        elif a[1][0] == 'load':
            a = a[1]                    # an entry of a table kept in a global place
            return globe(fn, a[1])
        a = a[1]
    if a[0] == 'g' and not a[1].startswith('.') and 'thread_local' not in fn.mod.globals.get(a[1], '').split(' global ')[0].split():
        return (a[1],) + tuple(p[:1])
    return None


def guard(R):
    R.cur = 'guard'
    m = R.prog.std()
    alone = reach(m, ('events_init', 'events_deinit'))
    under, sites = {}, {}
    for fn in funcs(m):
        if fn.name in (LOCK, UNLOCK):
            continue
        res = {}
        if calls(fn, LOCK):
            lockset(fn, res)
        put = {}                        # what is put in a global place here: its entries are that place's
        for i in fn.instrs():
            if i.op == 'store':
                w, v = globe(fn, S(fn.ex(i.ops[1]))), S(fn.ex(i.ops[0]))
                if w and v[0] in ('phi', 'call'):
                    put[v] = w
        for i in fn.instrs():
            w = where(fn, i, put)
            if w is None:
                continue
            ls = {shared(l) for l in res.get(i, ()) if not (moving(i) and inside(fn, l, w))} - {None}
            sites.setdefault(w, []).append((fn, i, ls))
            if ls:
                under[w] = under[w] & ls if w in under else ls
    for w in sorted(KNOWN - set(under)):
        for fn, i, ls in sites.get(w, ()):
            if fn.name not in alone:
                under[w] = set()
    for w in sorted(under):
        for fn, i, ls in sites[w]:
            R.saw(fn)
            R.check(bool(ls) or fn.name in alone, fn, i.where(), '%s is changed without the lock it is changed under elsewhere' % '.'.join(w), trace=())
        R.check(bool(under[w]) or not any(x[2] for x in sites[w]), sites[w][0][0], sites[w][0][1].where(), '%s is changed under different locks' % '.'.join(w), trace=())
    R.floor(len(under), 4, 'places that are changed under a lock')


def moving(i):
    """may leave the list elsewhere than it was, or put another in its place"""
    return i.op == 'store' or name(i) in MOVES


def inside(fn, l, w):
    """the lock is part of the list that is kept there"""
    return l[0] == 'own' and l[1][0] == 'load' and globe(fn, l[1][1]) == w


def shared(l):
    """a lock others can take: a global one, or the one of a list kept in a global place"""
    k, e = l
    r = root(e[1]) if k == 'own' and e[0] == 'load' else root(e)
    if r[0] != 'g':
        return None
    return (k, e)


def reach(m, top):
    """functions that only run as part of these"""
    by = {}
    for fn in m.fns.values():
        fn.ensure()
        for i in fn.instrs():
            if i.op == 'call' and i.attr['name'] in m.fns:
                by.setdefault(i.attr['name'], set()).add(fn.name)
            for o in i.ops:
                if isinstance(o, tuple):
                    for y in walk(o):
                        if y[0] == 'g' and y[1] in m.fns:
                            by.setdefault(y[1], set()).add(None)
    out = set(top)
    grew = True
    while grew:
        n = {f for f, c in by.items() if c <= out} - out
        out |= n
        grew = bool(n)
    return out


def lockset(fn, res):
    """locks held at each instruction on every path to it"""
    inn = {fn.entry.name: frozenset()}
    work = [fn.entry.name]
    while work:
        b = fn.blocks[work.pop()]
        cur = inn[b.name]
        for i in b.ins:
            res[i] = cur
            if name(i) == LOCK:
                cur = cur | {lockid(fn, i)}
            elif name(i) == UNLOCK:
                cur = cur - {lockid(fn, i)}
        for t in b.succ:
            n = cur if t not in inn else inn[t] & cur
            if t not in inn or n != inn[t]:
                inn[t] = n
                work.append(t)



# ------------------------------------------------------------------------------------------------------ born
def start_of(a):
    """the record an address behind it and back again is in"""
    n, b = 0, a
    while b[0] == 'idx' and b[2][0] == 'int':
        n += b[2][1]
        b = b[1]
    return b if n == 0 else a


def born(R):
    R.cur = 'born'
    m = R.prog.std()
    kinds = {('array_metadata_s', 'lock')}
    for fn in funcs(m):
        for i in calls(fn, LOCK):
            e = S(fn.ex(i.ops[0]))
            if e[0] == 'fld' and e[2] and root(e)[0] != 'g':
                kinds.add((e[2], e[3]))
    k = 0
    for fn in funcs(m):
        new = {}
        for i in fn.instrs():
            for o in i.ops:
                if not isinstance(o, tuple):
                    continue
                for y in walk(S(fn.ex(o))):
                    if y[0] == 'fld' and start_of(y[1])[0] == 'call' and start_of(y[1])[1] == 'events_malloc':
                        for st, f in kinds:
                            if y[2] == st:
                                new.setdefault(start_of(y[1]), set()).add(f)
        if not new:
            continue
        R.saw(fn)
        k += len(new)

        def step(x, i, T):
            made, clear = x
            n = name(i)
            if n == 'events_malloc':
                v = ('call', n, i.dest)
                R.check(v not in made or v in clear, fn, i.where(), 'a new record is handed on with whatever was in the memory of its lock', trace=T.trace())
                return (made - {v}, clear - {v}) if v in new else x
            if i.op in ('store', 'atomicrmw'):
                a = T.ev(i.ops[1 if i.op == 'store' else 0])
                v = T.ev(i.ops[0 if i.op == 'store' else 1])
                if a[0] == 'fld':
                    a = ('fld', start_of(a[1]), a[2], a[3])
                if a[0] == 'fld' and a[1] in new:
                    if a[3] in new[a[1]]:
                        R.check(v == ('int', 0), fn, i.where(), 'the lock of a new record is not free', trace=T.trace())
                        return (made | {a[1]}, clear | {a[1]}) if v == ('int', 0) else x
                    return (made | {a[1]}, clear)
            if n == UNLOCK:
                a = T.ev(i.ops[0])
                if a[0] == 'fld':
                    a = ('fld', start_of(a[1]), a[2], a[3])
                if a[0] == 'fld' and a[1] in new and a[3] in new[a[1]]:
                    return (made, clear | {a[1]})
            return x

        def ex(x, t, T, rv):
            R.check(x[0] <= x[1], fn, t.where(), 'a new record is handed on with whatever was in the memory of its lock', trace=T.trace())

        Track(fn, step=step, exit=ex, x0=(frozenset(), frozenset()), track_mem=lambda a: False, about=lambda q: False).run()
    R.floor(k, 2, 'records made with a lock in them')


RULES = [start, excl, held, guard, born]

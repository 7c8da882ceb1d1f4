"""P27: start-up, shutdown, loops and workers: nothing of one run is left for the next."""
from rules.common import *
from flow import *
from track import Track, Loop, root, nodest
from rules.p07 import magic

TEXT = [
    ('gate', 'set-up and shutdown do nothing when already done, and leave the marks that say so as they are: up after success, down after failure or shutdown; '
             'what a failed set-up had acquired is given back'),
    ('fresh', 'each place of the run state (of the thread and of the library) that a run changes is set anew by set-up or shutdown, before the first task '
              'is made if making one uses it'),
    ('released', 'each place that keeps memory of the library is, at shutdown, found empty or released once and cleared; what was collected is released by kind'),
    ('loop', 'a loop that cannot be created is given back (memory, descriptor), not counted and not known to the thread; a destroyed one is closed and released once'),
    ('owner', 'each worker destroys the loop of its own queue once, when it ends; a loop it shares with its maker is left to that one'),
    ('worker', 'a worker that could not be started leaves nothing behind; one that was is listed once; the table of queues is used within its bounds'),
]
THRD = ('call', '__thrd', '')
ALLOC = {'events_malloc', 'events_calloc', 'events_realloc', 'array', 'arrays', 'create_task', 'data_append', 'data_append_item'}
FREE = {'events_free', 'data_delete', 'deque_free', 'free', 'rpfree'}
# of the thread's state: written before every use (running), or counted without end (num_others_ran)
ANEW = {'THRD.running', 'THRD.num_others_ran', 'THRD.active_sig_handle'}
ROUND = {'sys_event.future_id_count'}       # whose turn it is, taken modulo the number of workers
QUIET = {'__thrd', 'thrd_cpu_count', 'data_queue_size', 'events_uname', 'events_hostname', 'cerr', 'is_data', 'is_ptr_usable', 'data_type', 'data_size',
         'events_is_destroy', 'time', 'atomic_spinlock_unlock', 'atomic_spinlock_lock', '__errno_location', 'array', 'os_sleep', 'os_create',
         'events_malloc', 'events_calloc', 'events_realloc', 'events_memalign', 'deque_init', 'os_join', 'perror', 'eventfd', 'close', 'os_close',
         'epoll_create', 'epoll_create1', 'data_append_item', 'data_append', 'events_create_future', 'events_create_pool', 'active_task'}
CLOSE = {'close', 'os_close', 'epoll_close'}
INLINE = ['deque_destroy', 'events_init_loop_internal', 'events_deinit_loop_internal', 'events_set_destroy']


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def place(a):
    """name of a place of the library's own state"""
    p = []
    while a[0] in ('fld', 'idx'):
        if a[0] == 'fld':
            p.append(a[3])
        elif a[2] != ('int', 0):
            return None
        a = a[1]
    if a[0] == 'g':
        return '.'.join([a[1]] + p[::-1]) if not a[1].startswith('.') else None
    return '.'.join(['THRD'] + p[::-1]) if a[:2] == THRD[:2] else None


def first_line(fn):
    return fn.entry.ins[0].where()


def wr(i):
    """operand number of the address an instruction writes"""
    return {'store': 1, 'atomicrmw': 0, 'cmpxchg': 0}.get(i.op)


def loaded(v):
    """the place a value was read from"""
    return place(v[1]) if v[0] in ('ld', 'load') else None


def view(R):
    return R.prog.std(extra=INLINE)


def api(m, n):
    if n not in m.fns:
        raise AnalysisBroken('no function %s' % n)
    fn = m.fns[n]
    fn.ensure()
    return fn


def writers(m, gl):
    """names of functions that may write a global, themselves or through what they call"""
    out = set()
    for fn in m.fns.values():
        fn.ensure()
        for i in fn.instrs():
            w = wr(i)
            if w is not None and root(S(fn.ex(i.ops[w]))) == ('g', gl):
                out.add(fn.name)
    grew = True
    while grew:
        grew = False
        for fn in m.fns.values():
            if fn.name not in out and any(i.op == 'call' and i.attr['name'] in out for i in fn.instrs()):
                out.add(fn.name)
                grew = True
    return out


def latch(fn):
    """the global a function looks at first, to see whether there is anything to do"""
    b = fn.entry
    for _ in range(4):
        t = b.term
        if t.op == 'br' and t.ops:
            k, p = literal(S(fn.ex(t.ops[0])))
            if not isinstance(k, bool):
                for y in walk(k):
                    if y[0] in ('load', 'ld') and y[1][0] == 'g':
                        return y[1][1]
            return None
        if len(b.succ) != 1:
            return None
        b = fn.blocks[b.succ[0]]
    return None


# ------------------------------------------------------------------------------------------------------ gate
def gate(R):
    R.cur = 'gate'
    m = R.prog.std()
    pairs = [('events_init', 'events_deinit', 'events_deinit'), ('os_init', 'os_shutdown', 'os_shutdown')]
    n = 0
    for up, down, undo in pairs:
        fu, fd = api(m, up), api(m, down)
        gu, gd = latch(fu), latch(fd)
        if gu is None or gd is None:
            R.bad(fu if gu is None else fd, first_line(fu if gu is None else fd), 'it does not look first whether it is already done', ())
            continue
        eu = one_gate(R, m, fu, gu, gu, gd, True)
        ed = one_gate(R, m, fd, gd, gu, gd, False)
        # what each leaves, per kind of exit: {(early, failed): set of (up mark, down mark)}
        U, D = eu['when'], ed['when']
        if len(U) != 1 or len(D) != 1:
            R.bad(fu if len(U) != 1 else fd, first_line(fu), 'it does not do nothing exactly when already done', ())
            continue
        U, D = U.pop(), D.pop()
        for (kind, f, i, mu, md, T) in eu['ends']:
            n += 1
            if kind == 'done':
                R.check(mu is U, fu, i, 'set-up ends well without the mark that it is done', trace=T)
                R.check(gu == gd or md is not None and md is (not D), fu, i, 'shutdown after this set-up does nothing', trace=T)
            else:
                R.check(mu is (not U), fu, i, 'a failed set-up stays marked as done', trace=T)
        for (kind, f, i, mu, md, T) in ed['ends']:
            n += 1
            R.check(mu is (not U), fd, i, 'set-up after this shutdown does nothing', trace=T)
            R.check(md is D, fd, i, 'a second shutdown would go through everything again', trace=T)
    R.floor(n, 6, 'ends of set-up and shutdown')


def one_gate(R, m, fn, flag, gu, gd, up):
    res = {'when': set(), 'ends': []}
    W = {gl: writers(m, gl) for gl in (gu, gd)}
    R.saw(fn)

    # x = (what the mark said, anything done, acquired: (value, ...), undone)
    def step(x, i, T):
        said, did, got, gave, mk = x
        w = wr(i)
        if w is not None and T.ev(i.ops[w])[0] != 'alloca' or i.op == 'call' and not (name(i) or '').startswith('llvm.') and \
                name(i) not in ('__thrd', '__errno_location') and i.attr.get('callee', ('',))[0] != 'asm':
            did = True
        if i.op == 'call':
            n = name(i)
            if n in ('os_init',) or n in ALLOC or n in ('events_memalign', 'eventfd'):
                got = got + ((n, i.dest, nodest(T.ev(i.ops[1])) if n == 'events_memalign' else None),)
            if n == 'os_shutdown':
                gave = gave | {'os_init', '*'}
            elif n in FREE or n in CLOSE:
                gave = gave | {T.ev(i.ops[0]), nodest(T.ev(i.ops[0]))}
        if i.op == 'store' and T.ev(i.ops[1])[0] == 'g' and T.ev(i.ops[1])[1] in (gu, gd):
            v = T.ev(i.ops[0])
            mk = tuple(sorted(dict(mk + ((T.ev(i.ops[1])[1], v[1] != 0 if v[0] == 'int' else None),)).items(), key=str))
        elif i.op == 'call':
            mk = tuple(sorted(dict(mk + tuple((gl, None) for gl in (gu, gd) if name(i) in W[gl])).items(), key=str))
        return (said, did, got, gave, mk)

    def edge(x, k, p, i, T):
        if x[0] is None and not x[1]:
            t = truth(k, p, lambda v: v[0] in ('ld', 'load') and v[1] == ('g', flag))
            if t is not None:
                return (t,) + x[1:]
        return x

    def ex(x, t, T, rv):
        said, did, got, gave, mk = x
        mk = dict(mk)
        mk.setdefault(flag, said)
        if not did:
            if said is not None:
                res['when'].add(said)
            if rv is not None:
                R.check(rv == ('int', 0), fn, t.where(), 'being already done is not reported as success', trace=T.trace())
            return
        z = None if rv is None else T.null(rv)
        kind = 'done' if rv is None or z else 'failed'
        if kind == 'failed' and up:
            for n, d, out in got:
                v = ('call', n, d)
                if n == 'os_init':
                    nul = T.null(v)
                    R.check(nul is False or 'os_init' in gave, fn, t.where(), 'a failed set-up leaves the system part set up', trace=T.trace())
                elif n == 'eventfd':
                    bad = T.holds(('cmp', 'eq', v, ('int', -1)))
                    R.check(bad is True or '*' in gave or v in gave, fn, t.where(), 'a failed set-up leaves a descriptor open', trace=T.trace())
                else:
                    R.check(T.null(v) is True or '*' in gave and fn.name == 'os_init' or v in gave or out is not None and ('load', out) in gave, fn,
                            t.where(), 'a failed set-up leaves memory behind', trace=T.trace())
        if kind == 'failed' and '*' in gave and mk.get(gu) is None and fn.name == 'os_init':
            mu = False                  # told by the shutdown it calls
        else:
            mu = mk.get(gu)
        if kind == 'failed' and fn.name == 'os_init' and mu is True and '*' in gave:
            mu = False
        res['ends'].append((kind, fn, t.where(), mu, mk.get(gd), T.trace()))
    Track(fn, step=step, edge=edge, exit=ex, x0=(None, False, (), frozenset(), ()), pure=QUIET, keep=lambda n, a: n not in CLOSE,
          track_mem=lambda a: a[0] == 'g' and ('Port' in a[1] or 'Table' in a[1]) or a[0] == 'alloca',
          about=lambda k: mentions(k, lambda y: y[0] == 'g' and y[1] in (gu, gd) or y[0] == 'call' and y[1] in
                                   ALLOC | {'os_init', 'events_memalign', 'eventfd'} or y[0] == 'g' and ('Table' in y[1] or 'Port' in y[1]))).run()
    return res


# ------------------------------------------------------------------------------------------------------ fresh
def written(m, but):
    """places of the run state and where they are written"""
    out = {}
    for fn in funcs(m):
        if fn.name in but:
            continue
        for i in fn.instrs():
            w = wr(i)
            if w is None:
                continue
            p = place(S(fn.ex(i.ops[w])))
            if p and (p.startswith('THRD.') or p.startswith('sys_event.')):
                out.setdefault(p, set()).add(fn.name)
    return out


def latches(m):
    """what making a task marks in the library for good"""
    out = set()
    for fn in funcs(m):
        if any(i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'magic_number', 'events_task_s') for i in fn.instrs()) and \
                any(i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'func', 'events_task_s') for i in fn.instrs()):
            for i in fn.instrs():
                if i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'g' and S(fn.ex(i.ops[0]))[0] == 'int' and S(fn.ex(i.ops[0])) != ('int', 0):
                    out.add(S(fn.ex(i.ops[1]))[1])
    return out


def touched(m, names):
    """places read or written by functions and by what they call"""
    out, seen, st = set(), set(), list(names)
    while st:
        n = st.pop()
        if n in seen or n not in m.fns:
            continue
        seen.add(n)
        fn = m.fns[n]
        fn.ensure()
        for i in fn.instrs():
            if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
                p = place(S(fn.ex(i.ops[0 if i.op != 'store' else 1])))
                if p:
                    out.add(p)
            elif i.op == 'call' and i.attr['name']:
                st.append(i.attr['name'])
    return out


def sets(fn, i, ev):
    """the places an instruction sets: [(place prefix, value)]"""
    if i.op == 'store':
        p = place(ev(i.ops[1]))
        return [(p + '._' if p in ('sys_event', 'THRD') else p, ev(i.ops[0]))]
    if i.op == 'call' and (i.attr['name'] or '').startswith('llvm.memset') and ev(i.ops[1]) == ('int', 0):
        return [(place(ev(i.ops[0])), ('int', 0))]
    if i.op == 'call' and i.attr['name'] == 'memset' and ev(i.ops[1]) == ('int', 0):
        return [(place(ev(i.ops[0])), ('int', 0))]
    return []


def covers(s, p):
    return any(p == q or p.startswith(q + '.') for q in s)


def fresh(R):
    R.cur = 'fresh'
    m = R.prog.std()
    init, deinit = api(m, 'events_init'), api(m, 'events_deinit')
    R.saw(init)
    R.saw(deinit)
    need = set(written(m, {'events_init', 'events_deinit'})) - ANEW - ROUND
    need = {p for p in need if not p.startswith('sys_event.pHandle') and not p.startswith('sys_event.lock')}
    need |= latches(m)
    ends = {'init': [], 'deinit': []}
    first = []
    tk = touched(m, ['create_task', 'task_push'])
    for key, fn in (('init', init), ('deinit', deinit)):
        gl = latch(fn)

        def step(x, i, T, fn=fn, key=key):
            done, did, made = x
            for p, v in sets(fn, i, T.ev):
                if p is None:
                    continue
                did = True
                if v[0] == 'int' and v != ('int', 0) and p in need and p not in ('THRD.is_main',):
                    R.bad(fn, i.where(), 'a new run starts with %s other than 0' % p, T.trace())
                elif not mentions(v, lambda y: y[0] in ('ld', 'load') and place(y[1]) == p) or name_alloc(v):
                    done = done | {p}
            if name(i) in ('create_task', 'task_push') and not made and key == 'init':
                made = True
                first.append((i.where(), done))
            if name(i) and not name(i).startswith('llvm.') and name(i) not in ('__thrd',):
                did = True
            return (done, did, made)

        def ex(x, t, T, rv, key=key):
            if x[1] and (rv is None or T.null(rv)):
                ends[key].append(x[0])
        Track(fn, step=step, exit=ex, x0=(frozenset(), False, False), pure=QUIET, track_mem=lambda a: False, about=lambda k: False).run()
    if not ends['init'] or not ends['deinit']:
        raise AnalysisBroken('no complete run of set-up or shutdown found')
    di = frozenset.intersection(*ends['deinit'])
    si = frozenset.intersection(*ends['init'])
    for p in sorted(need):
        R.check(covers(si, p) or covers(di, p), init, first_line(init), '%s of one run is seen by the next' % p, trace=())
    consts = set()
    for i in init.instrs():
        for p, v in sets(init, i, lambda o: S(init.ex(o))):
            if p and v[0] == 'int':
                consts.add(p)
    for w, done in first:
        for p in sorted(need & tk):
            if covers(consts, p) and not covers(di, p):
                R.check(covers(done, p), init, w, 'a task is made while %s is still that of the run before' % p, trace=())
    R.floor(len(need), 15, 'places of the run state')
    R.floor(len(first), 1, 'first tasks')


def name_alloc(v):
    return v[0] == 'call' and v[1] in ALLOC


# ------------------------------------------------------------------------------------------------------ released
def keepers(m):
    """places of the library that keep memory: place -> functions"""
    out = {}

    def fresh_val(fn, v, d=0):
        if v[0] == 'call':
            return v[1] in ALLOC
        if v[0] == 'phi' and d < 4 and v[1] in fn.defs:
            return any(fresh_val(fn, S(fn.ex(o)), d + 1) for o, _ in fn.defs[v[1]].attr['inc'])
        return False
    for fn in funcs(m):
        for i in fn.instrs():
            p = None
            if i.op == 'store' and fresh_val(fn, S(fn.ex(i.ops[0]))):
                p = place(S(fn.ex(i.ops[1])))
            elif name(i) == 'events_memalign':
                p = place(S(fn.ex(i.ops[1])))
            if p:
                out.setdefault(p, set()).add(fn.name)
    return out


def released(R):
    R.cur = 'released'
    m = view(R)
    fn = api(m, 'events_deinit')
    R.saw(fn)
    shut = api(m, 'os_shutdown')
    M = magic(R.prog.std())
    P = {p for p, fs in keepers(m).items() if not p.startswith(('EVENTS_ARGS', 'command_line'))}
    sysp = {p for p in P if 'Table' in p or keepers(m)[p] <= {'os_init', 'events_new_fd', 'os_shutdown'}}
    P.discard('THRD.active_handle')
    ours = {p for p in P if p not in sysp and not p.startswith('THRD.') or p == 'THRD.sleep_handle'}
    # other places of the thread's state keep what user code made, or point to what is kept elsewhere
    R.floor(len(ours), 6, 'places that keep memory')
    keep_check(R, fn, ours, M)
    keep_check(R, shut, sysp, M)
    kinds(R, fn, M)
    whole(R, fn)


def keep_check(R, fn, P, M):
    R.saw(fn)
    gl = latch(fn)

    # x = (early, released: (place, ...), nothing there: places, cleared: places)
    def step(x, i, T):
        did, rel, none, clr = x
        n = name(i)
        if n in FREE:
            v = T.ev(i.ops[0])
            p = loaded(v)
            if p in P:
                R.check(p not in rel, fn, i.where(), '%s is released twice' % p, trace=T.trace())
                rel = rel | {p}
            did = True
        elif i.op == 'store':
            p = place(T.ev(i.ops[1]))
            did = did or p is not None
            if p in P:
                if T.ev(i.ops[0]) == ('int', 0):
                    clr = clr | {p}
                else:
                    clr = clr - {p}
        return (did, rel, none, clr)

    def edge(x, k, p, i, T):
        q = empty(fn, T, k, p, P, M)
        return x[:2] + (x[2] | {q},) + x[3:] if q else x

    def ex(x, t, T, rv):
        did, rel, none, clr = x
        if not did:
            return
        for p in sorted(P):
            R.check(p in none or p in rel, fn, t.where(), '%s is not released' % p, trace=T.trace())
            R.check(p not in rel or p in clr, fn, t.where(), '%s still points to what was released' % p, trace=T.trace())
    Track(fn, step=step, edge=edge, exit=ex, x0=(False, frozenset(), frozenset(), frozenset()), pure=QUIET, track_mem=lambda a: False,
          about=lambda k: mentions(k, lambda y: y[0] in ('ld', 'load') and place(y[1]) in P)).run()


def empty(fn, T, k, pol, P, M):
    """the place a literal says holds nothing (of ours)"""
    if k[0] != 'eq':
        return None
    for a, b in ((k[1], k[2]), (k[2], k[1])):
        if b == ('int', 0):
            if loaded(a) in P and pol:
                return loaded(a)
            if a[0] == 'call' and a[1] in ('is_data', 'is_ptr_usable') and pol:
                d = fn.defs.get(a[2])
                v = T.ev(d.ops[0]) if d is not None else None
                if v is not None and loaded(v) in P:
                    return loaded(v)
        if b == M and not pol and a[0] in ('ld', 'load') and a[1][0] == 'fld' and a[1][3] == 'magic_number' and loaded(a[1][1]) in P:
            return loaded(a[1][1])
    return None


def collected(v, fn):
    """an element of what was collected"""
    return v[0] in ('ld', 'load') and v[1][0] == 'idx' and loaded(v[1][1]) == 'sys_event.gc'


def kinds(R, fn, M):
    seen = [0]
    GENV = gen_type(R)

    # x = (what it is, released)
    def step(x, i, T):
        if name(i) in FREE:
            v = T.ev(i.ops[0])
            if collected(v, fn) or x[2] is not None and nodest(v) == x[2]:
                seen[0] += 1
                R.check(not x[1], fn, i.where(), 'something collected is released twice', trace=T.trace())
                R.check((name(i) == 'data_delete') == (x[0] == 'data'), fn, i.where(), 'something collected is released as what it is not', trace=T.trace())
                return (x[0], True, nodest(v))
        return x

    def edge(x, k, p, i, T):
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                if a[0] == 'call' and a[1] in ('is_data', 'data_type') and b[0] == 'int':
                    d = fn.defs.get(a[2])
                    v = T.ev(d.ops[0]) if d is not None else ('int', 0)
                    if collected(v, fn):
                        if a[1] == 'is_data' and (b == ('int', 0)) != p:
                            return ('data',) + x[1:]
                        if a[1] == 'data_type' and b == GENV and p:
                            return ('generator',) + x[1:]
                if b == M and p and a[0] in ('ld', 'load') and a[1][0] == 'fld' and a[1][3] == 'magic_number' and collected(a[1][1], fn):
                    return ('task',) + x[1:]
        return x

    def back(x, h, again, T):
        R.check(not x[0] or x[1], fn, fn.blocks[h].ins[-1].where(), 'a %s that was collected is not released' % x[0], trace=T.trace())
        return (None, False, None)
    Track(fn, step=step, edge=edge, back=back, x0=(None, False, None), pure=QUIET | FREE, track_mem=lambda a: False,
          about=lambda k: mentions(k, lambda y: collected(y, fn) or y[0] == 'call' and y[1] in ('is_data', 'data_type'))).run()
    R.floor(seen[0], 3, 'releases of what was collected')


def gen_type(R):
    for fn in funcs(R.prog.std()):
        for i in fn.instrs():
            if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'type', 'generator_s'):
                return S(fn.ex(i.ops[0]))
    raise AnalysisBroken('generators have no type')


def whole(R, fn):
    """loops of shutdown over what was collected and over the results reach every element"""
    k = 0
    for i in fn.instrs():
        if name(i) not in FREE:
            continue
        v = S(fn.ex(i.ops[0]))
        if v[0] != 'load' or v[1][0] != 'idx' or v[1][2][0] != 'phi':
            continue
        p = loaded(v[1][1])
        if p not in ('sys_event.results', 'sys_event.gc'):
            continue
        ph = v[1][2]
        h = fn.defs[ph[1]].blk.name
        L = Loop(fn, h)
        if ph[1] not in L.iv:
            continue
        st, by = L.iv[ph[1]]
        t = fn.blocks[h].term
        if t.op != 'br' or not t.ops:
            continue
        key, pol = literal(S(fn.ex(t.ops[0])))
        k += 1
        if by == 1:
            R.check(S(st) == ('int', 0), fn, i.where(), 'the first of %s is left out' % p, trace=())
            if not isinstance(key, bool) and key[0] == 'lt' and ph in (key[2], key[3]):
                # phi < N goes on, or N < phi (that is: not phi <= N) does
                b = key[3] if key[2] == ph else key[2]
                base, off = lin(b)
                base = [y for y in walk(b) if y[0] in ('load', 'ld', 'call')]
                if base and p == 'sys_event.results':
                    R.check(any(loaded(y) == 'sys_event.result_id_generate' or loaded(y) == 'tasks_results_size' for y in base), fn, i.where(),
                            'the results are released up to something else than their number', trace=())
                R.check(off == 0 and key[2] == ph, fn, i.where(), 'the loop over %s ends elsewhere than after the last' % p, trace=())
            else:
                R.ok('%s: loop over %s' % (i.where(), p))
        elif by == -1:
            b = S(st)
            base, off = lin(b)
            R.check(off == -1, fn, i.where(), 'the loop over %s does not start with the last' % p, trace=())
            if not isinstance(key, bool) and key[0] == 'lt' and key[2] == ph and key[3][0] == 'int':
                R.check(key[3][1] == 0, fn, i.where(), 'the loop over %s ends before the first' % p, trace=())
        else:
            R.bad(fn, i.where(), 'the loop over %s leaves some out' % p, ())
    R.floor(k, 1, 'loops over what is to be released')


# ------------------------------------------------------------------------------------------------------ loop
def loop(R):
    R.cur = 'loop'
    m = view(R)
    create, destroy = api(m, 'events_create'), api(m, 'events_destroy')
    made(R, create)
    gone(R, destroy)


def made(R, fn):
    R.saw(fn)
    n = [0]

    # x = (memory got, descriptors got, (aligned result, place), freed, closed, counted, known)
    def step(x, i, T):
        got, fds, al, freed, closed, cnt, known, at = x
        nm = name(i)
        if nm in ('events_malloc', 'events_calloc'):
            got = got + (('call', nm, i.dest),)
        elif nm == 'events_memalign':
            al = al + ((('call', nm, i.dest), nodest(T.ev(i.ops[1]))),)
        elif nm and nm.startswith(('epoll_create', 'kqueue')):
            fds = fds + (('call', nm, i.dest),)
        elif nm in FREE:
            freed = freed + (T.ev(i.ops[0]), nodest(T.ev(i.ops[0])))
            a = nodest(T.ev(i.ops[0]))
        elif nm in CLOSE:
            closed = closed + (T.ev(i.ops[0]),)
        elif nm in ('events_create_future', 'events_create_pool'):
            known = True
        elif i.op == 'atomicrmw' and place(T.ev(i.ops[0])) == 'sys_event.num_loops':
            d = {'add': 1, 'sub': -1}.get(i.attr['rmw'])
            v = T.ev(i.ops[1])
            R.check(d is not None and v == ('int', 1), fn, i.where(), 'the number of loops changes by something else than one', trace=T.trace())
            cnt += d or 0
        elif i.op == 'store':
            p = place(T.ev(i.ops[1]))
            v = T.ev(i.ops[0])
            if p in ('THRD.loop', 'THRD.pool'):
                known = v != ('int', 0)
            elif p == 'sys_event.num_loops':
                R.bad(fn, i.where(), 'the number of loops is set, not counted', T.trace())
            elif v in fds:
                at = at + (nodest(T.ev(i.ops[1])),)
            elif T.ev(i.ops[1])[0] == 'fld' and T.ev(i.ops[1])[3] == 'loop_id':
                while v[0] == 'trunc':
                    v = v[2]
                b, k = lin(S(v))
                R.check(mentions(v, lambda y: y[0] == 'rmw') and k >= 1, fn, i.where(), 'the number of a loop is not one of its own', trace=T.trace())
        return (got, fds, al, freed, closed, cnt, known, at)

    def ex(x, t, T, rv):
        got, fds, al, freed, closed, cnt, known, at = x
        z = T.null(rv)
        w, tr = t.where(), T.trace()
        n[0] += 1
        if z:
            for v in got:
                R.check(T.null(v) or v in freed, fn, w, 'the memory of a loop that was not created is kept', trace=tr)
            for v, out in al:
                R.check(T.null(v) or ('load', out) in freed or v in freed, fn, w, 'the time-outs of a loop that was not created are kept', trace=tr)
            for v in fds:
                R.check(T.holds(('cmp', 'eq', v, ('int', -1))) is True or T.holds(('cmp', 'slt', v, ('int', 0))) is True or v in closed or any(nodest(c) == ('load', a) for c in closed for a in at),
                        fn, w, 'the descriptor of a loop that was not created is kept open', trace=tr)
            R.check(cnt == 0, fn, w, 'a loop that was not created is counted', trace=tr)
            R.check(not known, fn, w, 'a loop that was not created is known to the thread', trace=tr)
        else:
            R.check(cnt == 1, fn, w, 'a created loop is not counted once', trace=tr)
            R.check(len(got) >= 1 and all(T.null(v) is False for v in got), fn, w, 'a loop is returned without memory', trace=tr)
            R.check(len(fds) == 1 and (T.holds(('cmp', 'eq', fds[0], ('int', -1))) is False or T.holds(('cmp', 'slt', fds[0], ('int', 0))) is False),
                    fn, w, 'a loop is returned without a descriptor', trace=tr)
            R.check(len(al) == 1 and T.null(al[0][0]) is False, fn, w, 'a loop is returned without time-outs', trace=tr)
            R.check(not freed and not closed, fn, w, 'a created loop has lost something', trace=tr)
    Track(fn, step=step, exit=ex, x0=((), (), (), (), (), 0, False, ()), pure=QUIET, keep=lambda nm, a: True,
          track_mem=lambda a: a[0] == 'fld' and a[3] in ('epfd', 'kq', 'vec_of_vec', '_free_addr') or a[0] == 'alloca',
          about=lambda k: mentions(k, lambda y: y[0] == 'call' and y[1] != '__thrd')).run()
    R.floor(n[0], 3, 'ends of the creation of a loop')


def gone(R, fn):
    R.saw(fn)
    n = [0]

    def step(x, i, T):
        freed, closed = x
        nm = name(i)
        if any(v == ('arg', 0) for v in freed):
            if i.op in ('load', 'store'):
                a = T.ev(i.ops[0 if i.op == 'load' else 1])
                R.check(root(a) != ('arg', 0) or a[0] == 'arg', fn, i.where(), 'a loop is used after its release', trace=T.trace())
        if nm in FREE:
            v = nodest(T.ev(i.ops[0]))
            R.check(v not in freed, fn, i.where(), 'something of a loop is released twice', trace=T.trace())
            freed = freed + (v,)
        elif nm in CLOSE:
            closed = closed + (nodest(T.ev(i.ops[0])),)
        return (freed, closed)

    def ex(x, t, T, rv):
        freed, closed = x
        n[0] += 1
        w, tr = t.where(), T.trace()
        if T.null(rv):
            R.check(sum(root(v) == ('arg', 0) and v != ('arg', 0) or v[0] == 'load' and root(v[1]) == ('arg', 0) for v in closed) == 1, fn, w,
                    'the descriptor of a destroyed loop is not closed once', trace=tr)
            R.check(('arg', 0) in freed, fn, w, 'the memory of a destroyed loop is kept', trace=tr)
            R.check(any(v[0] == 'load' and v[1][0] == 'fld' and v[1][3] == '_free_addr' for v in freed), fn, w,
                    'the time-outs of a destroyed loop are kept', trace=tr)
        else:
            R.check(not freed, fn, w, 'a loop is reported as not destroyed though it is released', trace=tr)
            R.check(T.null(('arg', 0)) or closed, fn, w, 'a loop is not destroyed', trace=tr)
    Track(fn, step=step, exit=ex, x0=((), ()), pure=QUIET | FREE, track_mem=lambda a: False,
          about=lambda k: mentions(k, lambda y: y == ('arg', 0) or y[0] == 'call' and y[1] in CLOSE)).run()
    R.floor(n[0], 2, 'ends of the destruction of a loop')


# ------------------------------------------------------------------------------------------------------ owner
def spawns(m):
    """(maker, call, function of the thread) of each worker thread made for a queue of the library"""
    for fn in funcs(m):
        for i in calls(fn, 'os_create'):
            f = S(fn.ex(i.ops[0]))
            if f[0] == 'g' and f[1] in m.fns and any(mentions(S(fn.ex(o)), lambda y: y == ('fld', ('g', 'sys_event'), 'sys_events_s', 'local'))
                                                     for j in fn.instrs() for o in j.ops if isinstance(o, tuple) and o[0] == 'ssa'):
                yield fn, i, f[1]


def owner(R):
    R.cur = 'owner'
    m = R.prog.std()
    k = 0
    for mk, call, wn in spawns(m):
        shares = False
        for i in mk.instrs():
            if i.op == 'store' and S(mk.ex(i.ops[1]))[0] == 'fld' and S(mk.ex(i.ops[1]))[3] == 'is_shared':
                shares = True
                v = S(mk.ex(i.ops[0]))
                ok = mentions(v, lambda y: y[0] == 'load' and place(y[1]) == 'THRD.loop') and mentions(v, lambda y: y[0] == 'arg') and \
                    v[0] == 'cmp' and v[1] == 'eq'
                R.check(ok, mk, i.where(), 'a loop is marked as shared by something else than being the one of its maker', trace=())
        fn = m.fns[wn]
        fn.ensure()
        k += 1
        one_owner(R, fn, shares)
    R.floor(k, 2, 'kinds of workers')


def one_owner(R, fn, shares):
    R.saw(fn)

    def step(x, i, T):
        n = name(i)
        if n == 'events_destroy':
            v = T.ev(i.ops[0])
            w, tr = i.where(), T.trace()
            R.check(x[0] == 0, fn, w, 'a worker destroys a loop twice', trace=tr)
            if v == ('int', 0) or T.null(v):
                R.check(shares and x[1] is True, fn, w, 'a worker does not destroy its loop', trace=tr)
            else:
                R.check(v[0] in ('ld', 'load') and v[1][0] == 'fld' and v[1][3] == 'loop', fn, w, 'a worker destroys a loop other than that of its queue', trace=tr)
                R.check(not shares or x[1] is False, fn, w, 'a worker destroys a loop it shares with its maker', trace=tr)
            return (1,) + x[1:]
        return x

    def edge(x, k, p, i, T):
        t = truth(k, p, lambda v: v[0] in ('ld', 'load') and v[1][0] == 'fld' and v[1][3] == 'is_shared')
        return x if t is None else (x[0], t)

    def ex(x, t, T, rv):
        R.check(x[0] == 1 or shares and x[1] is True, fn, t.where(), 'a worker ends without destroying its loop', trace=T.trace())
    Track(fn, step=step, edge=edge, exit=ex, x0=(0, None), pure=QUIET, track_mem=lambda a: False,
          about=lambda k: mentions(k, lambda y: y[0] == 'fld' and y[3] == 'is_shared')).run()


# ------------------------------------------------------------------------------------------------------ worker
LOCAL = ('fld', ('g', 'sys_event'), None, 'local')


def slot(a):
    """the index of an address in the table of queues"""
    if a[0] == 'idx' and a[1][0] in ('ld', 'load') and nodest(a[1][1]) == LOCAL:
        return a[2]
    return None


def worker(R):
    R.cur = 'worker'
    m = R.prog.std()
    k = 0
    for mk, call, wn in spawns(m):
        k += 1
        one_worker(R, mk)
    R.floor(k, 2, 'places that start workers')
    table(R, m)


def table(R, m):
    """the table of queues has room for every processor and the main thread, and is empty at first"""
    fn = api(m, 'events_init')
    R.saw(fn)
    CPUS = ('load', ('fld', ('g', 'sys_event'), None, 'cpu_count'))
    n, zeroed, made = 0, False, None
    for i in fn.instrs():
        if i.op == 'store' and place(S(fn.ex(i.ops[1]))) == 'sys_event.local':
            v = S(fn.ex(i.ops[0]))
            if v[0] != 'call' or v[1] not in ALLOC:
                continue
            d = fn.defs[v[2]]
            n += 1
            made = i
            a = [S(fn.ex(o)) for o in d.ops]
            size = ('bin', 'mul', a[0], a[1]) if v[1] == 'events_calloc' else a[-1]
            zeroed = zeroed or v[1] == 'events_calloc'
            b, c = lin(nodest(S(size)))
            if set(b) == {CPUS}:
                R.check(b[CPUS] >= 8 and c >= b[CPUS], fn, i.where(), 'the table of queues has no room for the last processor', trace=())
            else:
                R.ok('%s: table of queues' % i.where())
    R.floor(n, 1, 'makings of the table of queues')
    for i in fn.instrs():
        if i.op == 'store' and S(fn.ex(i.ops[0])) == ('int', 0):
            a = S(fn.ex(i.ops[1]))
            if a[0] != 'idx' or loaded(a[1]) != 'sys_event.local' or a[2][0] != 'phi':
                continue
            h = fn.defs[a[2][1]].blk.name
            L = Loop(fn, h)
            key = literal(S(fn.ex(fn.blocks[h].term.ops[0])))[0] if fn.blocks[h].term.op == 'br' and fn.blocks[h].term.ops else True
            zeroed = True
            if a[2][1] in L.iv and L.iv[a[2][1]][1] == 1:
                R.check(S(L.iv[a[2][1]][0]) in (('int', 0), ('int', 1)), fn, i.where(), 'the first queues of the table are left as they are', trace=())
                if not isinstance(key, bool) and key[0] == 'lt' and a[2] in (key[2], key[3]):
                    o = key[3] if key[2] == a[2] else key[2]
                    b, c = lin(nodest(S(o)))
                    if set(b) == {CPUS}:
                        R.check(c + (1 if key[3] == a[2] else 0) >= 1, fn, i.where(), 'the last queue of the table is left as it is', trace=())
        elif (name(i) or '').startswith(('llvm.memset', 'memset')) and loaded(S(fn.ex(i.ops[0]))) == 'sys_event.local' or \
                (name(i) or '').startswith(('llvm.memset', 'memset')) and S(fn.ex(i.ops[0]))[:2] in [('call', x) for x in ALLOC]:
            zeroed = True
    R.check(zeroed, fn, made.where() if made else first_line(fn), 'the table of queues is not empty at first', trace=())


def one_worker(R, fn):
    R.saw(fn)

    told = {True: [], False: []}

    # x = (memory got, thread, freed, times listed, what the table holds)
    def step(x, i, T):
        got, st, freed, listed, put = x
        n = name(i)
        w = i.where()
        a = None
        if i.op == 'load':
            a = T.ev(i.ops[0])
        elif i.op == 'store':
            a = T.ev(i.ops[1])
        if a is not None:
            s = slot(a)
            if s is not None:
                ok = any(k[0] == 'lt' and not p and nodest(k[2]) == ('load', ('fld', ('g', 'sys_event'), None, 'cpu_count')) and nodest(k[3]) == nodest(s)
                         or k[0] == 'lt' and p and nodest(k[2]) == nodest(s) and mentions(k[3], lambda y: y[0] == 'fld' and y[3] == 'cpu_count')
                         for k, p in T.F.items())
                R.check(ok, fn, w, 'the table of queues is used at an index that may be past its end', trace=T.trace())
        if n in ('events_malloc', 'events_calloc'):
            got = got + (('call', n, i.dest),)
        elif n == 'os_create':
            st = ('call', n, i.dest)
        elif n in FREE:
            v = T.ev(i.ops[0])
            R.check(v not in freed, fn, w, 'something of a worker is released twice', trace=T.trace())
            freed = freed + (v,)
        elif n in ('data_append', 'data_append_item') and (loaded(T.ev(i.ops[0])) or '').endswith('_cpu_idx') or \
                n in ('data_append', 'data_append_item') and T.ev(i.ops[0])[:2] == ('call', 'array'):
            listed += 1
        if i.op == 'store' and a is not None and slot(a) is not None:
            put = T.ev(i.ops[0])
        return (got, st, freed, listed, put)

    def ex(x, t, T, rv):
        got, st, freed, listed, put = x
        if not got:
            R.check(not listed, fn, t.where(), 'a worker is listed that was not started', trace=T.trace())
            return
        w, tr = t.where(), T.trace()
        up = st is not None and T.null(st) is False
        told[up].append((('int', 0) if rv is not None and T.null(rv) else rv, w, tr))
        if up:
            R.check(listed == 1, fn, w, 'a worker that was started is not listed once', trace=tr)
            R.check(not any(g in freed for g in got), fn, w, 'what a running worker uses is released', trace=tr)
            R.check(put in got, fn, w, 'the queue of a worker is not in the table', trace=tr)
        else:
            R.check(not listed, fn, w, 'a worker is listed that was not started', trace=tr)
            for g in got:
                R.check(T.null(g) or g in freed, fn, w, 'what a worker that was not started would have used is kept', trace=tr)
            R.check(put is None or T.null(put), fn, w,
                    'the queue of a worker that was not started stays in the table', trace=tr)
    Track(fn, step=step, exit=ex, x0=((), None, (), 0, None), pure=QUIET | FREE, keep=lambda n, a: True, stable={'cpu_count', 'loop_id', 'local'},
          about=lambda k: mentions(k, lambda y: y[0] == 'call' and y[1] in ('events_malloc', 'events_calloc', 'os_create') or y[0] == 'fld' and y[3] in
                                   ('cpu_count', 'local', 'thread', 'pool'))).run()
    good = {rv for rv, w, tr in told[True]}
    for rv, w, tr in told[False]:
        R.check(rv is None or rv not in good, fn, w, 'a worker that was not started is reported as started', trace=tr)


RULES = [start, gate, fresh, released, loop, owner, worker]

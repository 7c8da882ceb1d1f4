"""P22: child processes are launched as asked, waited for, and told once; nothing of them stays open."""
from rules.common import *
from flow import *
from track import Track, Loop, root, nodest

TEXT = [
    ('child', 'the child gets its ends as standard files and runs the program given, or ends; it never goes on in its parent\'s place'),
    ('launch', 'a launch is told as one only when there is a child; what was made for it alone is released'),
    ('args', 'the program gets its arguments, the environment given and the ends asked for'),
    ('wait', 'a child is reported as ended only when it has ended, with its code or the signal that ended it'),
    ('release', 'the end of the wait releases the record of the child and closes nothing else'),
    ('told', 'the end of a spawned child is told once, after it, with the status the wait gave'),
    ('pipes', 'the pipes of a spawned child are all open or none is launched, and all are closed after it, watched no more'),
    ('environment', 'a text of variables has room for each and for its end'),
]
Z = ('int', 0)
M1 = ('int', -1)
FORKS = ('vfork', 'fork')
CLOSES = ('close', 'os_close')
RELEASE = ('events_free', 'free', 'rpfree')
ENDS = ('write_input', 'read_output', 'error')


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def wide(e):
    while e is not None and e[0] in ('zext', 'sext', 'trunc'):
        e = e[-1]
    return e


def place(e):
    e = wide(e)
    return e[1] if e is not None and e[0] in ('ld', 'load') else None


def end_of(p):
    """(name of the pair, which end) of a place; the end is a number or an expression"""
    if p is None:
        return None
    k = 0
    if p[0] == 'idx':
        p, k = p[1], wide(p[2])
        k = k[1] if k[0] == 'int' else k
    if p[0] == 'idx' and k == 0:
        p, k = p[1], wide(p[2])
        k = k[1] if k[0] == 'int' else k
    return (p[3], k) if p[0] == 'fld' and p[3] in ENDS else None


def fieldval(e, f):
    p = place(e)
    return p is not None and p[0] == 'fld' and p[3] == f


def ofval(T, e, f):
    """e was read from field f, now or before"""
    return fieldval(e, f)


def lt0(T, e):
    return T.fact(('lt', 's', e, Z))


def above0(T, e):
    v = T.fact(('lt', 's', Z, e))
    if v is None:
        v = T.fact(('lt', 's', e, ('int', 1)))
        v = None if v is None else not v
    return v


def ok0(T, e):
    return T.null(e) is True or lt0(T, e) is False or T.fact(('eq', e, M1)) is False


def flag(T, f):
    """whether field f of the record is known to be set"""
    got = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and fieldval(q[1], f)]
    return None if not got else not got[-1]


def launch(R):
    m = R.prog.std()
    fns = [f for f in funcs(m) if any(True for _ in calls(f, *FORKS))]
    R.cur = 'child'
    if not fns:
        raise AnalysisBroken('nothing makes a child process')
    n = {'exec': 0, 'ret': 0, 'end': 0}
    for fn in fns:
        R.saw(fn)

        # x = (fork dest, ends given, spawned?, freed, nulled, noted, released, calls)
        def step(x, i, T):
            fk, got, freed, nul, noted, rel = x
            nm = name(i)
            if nm in FORKS:
                R.cur = 'launch'
                R.check(fk is None, fn, i.where(), 'two children are made', trace=T.trace())
                return ((nm, i.dest), got, freed, nul, noted, rel)
            if fk is None:
                return x
            f = ('call',) + fk
            child = T.null(f) is True
            if i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                if child:
                    R.cur = 'child'
                    R.check(root(a)[0] == 'alloca', fn, i.where(), 'the child writes into what its parent still uses', trace=T.trace())
                elif a[0] == 'fld' and a[3] in ('argv', 'env'):
                    nul = nul | {a[3]} if v == Z else nul - {a[3]}
                elif a[0] == 'fld' and a[3] == 'ps':
                    R.cur = 'launch'
                    R.check(v == f, fn, i.where(), 'another number is noted as that of the child', trace=T.trace())
                    noted = True
                return (fk, got, freed, nul, noted, rel)
            if i.op != 'call' or nm is None:
                return x
            if nm in ('dup2', 'dup3') and child:
                a = [T.ev(o) for o in i.ops]
                R.cur = 'child'
                e = end_of(place(a[0]))
                R.check(not any(g[0] == 'shut' and g[1] == e for g in got), fn, i.where(), 'the child closes an end before it is put in place', trace=T.trace())
                if a[1][0] == 'int':
                    got = got + ((a[1][1], e, (nm, i.dest)),)
            elif nm in CLOSES and child:
                a = wide(T.ev(i.ops[0]))
                R.cur = 'child'
                R.check(a[0] != 'int' or not 0 <= a[1] <= 2, fn, i.where(), 'the child closes its standard files', trace=T.trace())
                got = got + (('shut', end_of(place(a))),)
            elif nm in ('setsid', 'chdir') and child:
                R.cur = 'child'
                if nm == 'setsid':
                    R.check(flag(T, 'detached') is True, fn, i.where(), 'a child that is not detached begins a session of its own', trace=T.trace())
                else:
                    R.check(fieldval(T.ev(i.ops[0]), 'workdir') and flag(T, 'workdir') is True, fn, i.where(), 'the child works in another directory', trace=T.trace())
                got = got + ((nm, i.dest),)
            elif nm == 'execve' and child:
                R.cur = 'child'
                n['exec'] += 1
                a = [T.ev(o) for o in i.ops]
                tr, w = T.trace(), i.where()
                for k, pair in ((0, 'write_input'), (1, 'read_output'), (2, 'error')):
                    d = [g for g in got if g[0] == k]
                    side = lambda y: end_of(y) is not None and end_of(y)[0] == pair
                    if d:
                        e = d[-1][1]
                        R.check(e is not None and e[0] == pair and right(T, pair, e[1]), fn, w, 'the child gets another file as its standard one', trace=tr)
                        R.check(ok0(T, ('call',) + d[-1][2]), fn, w, 'the child runs although its files could not be put in place', trace=tr)
                        o = 1 if k == 0 else 0
                        none = any(v and q[0] == 'eq' and q[2] == M1 and end_of(place(q[1])) == (pair, o) for q, v in T.F.items())
                        R.check(none or flag(T, 'is_spawn') is False or any(g[0] == 'shut' and g[1] == (pair, o) for g in got), fn, w,
                                'the child keeps the end its parent has of a pipe', trace=tr)
                    else:
                        none = [q for q, v in T.F.items() if v and q[0] == 'eq' and q[2] == M1 and side(place(q[1])) and right(T, pair, end_of(place(q[1]))[1])]
                        R.check(bool(none), fn, w, 'the child does not get a file asked for', trace=tr)
                ses = [g for g in got if g[0] == 'setsid']
                det = flag(T, 'detached')
                R.check(det is False if not ses else lt0(T, ('call',) + ses[-1]) is False or T.fact(('eq', ('call',) + ses[-1], M1)) is False, fn, w,
                        'a child that is detached runs without a session of its own', trace=tr)
                dirs = [g for g in got if g[0] == 'chdir']
                R.check(ok0(T, ('call',) + dirs[-1]) if dirs else flag(T, 'workdir') is False, fn, w, 'the child runs in another directory than the one noted', trace=tr)
                R.cur = 'args'
                R.check(a[0] == ('arg', 0), fn, w, 'another program is run', trace=tr)
                R.check(fieldval(a[1], 'argv'), fn, w, 'the program gets other arguments', trace=tr)
                env = [wide(a[2])]
                if env[0][0] == 'select':
                    env = [env[0][2], env[0][3]]
                own = [e for e in env if fieldval(e, 'env')]
                par = [e for e in env if place(e) is not None and place(e) in (('g', 'environ'), ('g', '__environ'))]
                known = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and fieldval(q[1], 'env')]
                good = len(own) + len(par) == len(env) and (len(env) == 2 and own and par or own and known[-1:] == [False] or par and known[-1:] == [True])
                R.check(bool(good), fn, w, 'the program gets another environment', trace=tr)
                got = got + (('execve', i.dest),)
            elif nm in RELEASE and not child:
                v = T.ev(i.ops[0])
                for f_ in ('argv', 'env'):
                    if fieldval(v, f_):
                        R.cur = 'launch'
                        R.check(f_ not in freed, fn, i.where(), 'what was made for the child is released twice', trace=T.trace())
                        freed = freed | {f_}
            elif nm in CLOSES and not child:
                if fieldval(T.ev(i.ops[0]), 'fd'):
                    rel = True
            elif nm == '_exit' and child or nm == '_Exit' and child:
                n['end'] += 1
                R.cur = 'child'
                R.check(wide(T.ev(i.ops[0]))[:1] == ('int',) and wide(T.ev(i.ops[0]))[1] & 255 == 255, fn, i.where(), 'a child that could not run the program ends otherwise', trace=T.trace())
                R.check(any(failed(T, g) for g in got), fn, i.where(), 'the child ends without running the program though nothing failed', trace=T.trace())
            elif child and nm not in ('setsid', 'sigaction', 'perror', 'close', 'chdir', 'dup', 'fcntl', 'write', 'signal', 'sigprocmask', 'pthread_sigmask', 'sigemptyset',
                                      '__errno_location') and not nm.startswith('llvm.'):
                R.cur = 'child'
                R.check(m.fns.get(nm) is None, fn, i.where(), 'the child goes on with its parent\'s work: %s' % nm, trace=T.trace())
            return (fk, got, freed, nul, noted, rel)

        def failed(T, g):
            if g[0] == 'execve':
                return True
            c = g[2] if isinstance(g[0], int) else g if g[0] in ('setsid', 'chdir') else None
            if c is None:
                return False
            c = ('call',) + tuple(c)
            return lt0(T, c) is True or T.fact(('eq', c, M1)) is True or g[0] == 'chdir' and T.null(c) is False

        def right(T, pair, k):
            if pair != 'write_input':
                return k == 1
            # the child of spawn() has the reading end, one with a file of its own that file
            def spawned():
                got = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and fieldval(q[1], 'is_spawn')]
                return None if not got else not got[-1]
            if isinstance(k, tuple):
                e = wide(k)
                if e[0] == 'select' and fieldval(e[1], 'is_spawn'):
                    return wide(e[2]) == Z and wide(e[3]) == ('int', 1)
                if e[0] == 'select' and e[1][0] == 'cmp' and fieldval(e[1][2], 'is_spawn') and e[1][3] == Z:
                    a, b = (e[2], e[3]) if e[1][1] == 'ne' else (e[3], e[2])
                    return wide(a) == Z and wide(b) == ('int', 1)
                if e[0] == 'cmp' and e[1] == 'eq' and fieldval(e[2], 'is_spawn') and e[3] == Z:
                    return True
                return False
            s = spawned()
            return s is not None and k == (0 if s else 1)

        def ex(x, t, T, rv):
            fk, got, freed, nul, noted, rel = x
            tr, w = T.trace(), t.where()
            if fk is None:
                R.cur = 'launch'
                R.check(rv is None or wide(rv)[0] == 'int' and wide(rv)[1] < 0, fn, w, 'a launch is told although no child was made', trace=tr)
                return
            f = ('call',) + fk
            R.cur = 'child'
            if T.null(f) is True:
                R.bad(fn, w, 'the child returns into its parent\'s work', tr)
                return
            n['ret'] += 1
            R.check(T.null(f) is False, fn, w, 'parent and child are not told apart', trace=tr)
            R.cur = 'launch'
            for f_ in ('argv', 'env'):
                gone = f_ in freed or any(v and q[0] == 'eq' and q[2] == Z and fieldval(q[1], f_) for q, v in T.F.items())
                R.check(gone and (f_ in nul or f_ not in freed), fn, w, 'what was made for the child alone is not released, or stays named', trace=tr)
            failed = lt0(T, f) is True or T.fact(('eq', f, M1)) is True
            works = lt0(T, f) is False or T.fact(('eq', f, M1)) is False
            if failed:
                R.check(wide(rv)[0] == 'int' and wide(rv)[1] < 0, fn, w, 'a launch that failed is told as one that worked', trace=tr)
                R.check(rel, fn, w, 'the record of a child that could not be launched stays in use', trace=tr)
            else:
                R.check(works, fn, w, 'a launch that failed is told as one that worked', trace=tr)
                R.check(fieldval(rv, 'fd'), fn, w, 'what is given does not name the child', trace=tr)
                R.check(noted, fn, w, 'the number of the child is not noted', trace=tr)
                R.check(not rel, fn, w, 'the record of the child is given up', trace=tr)
        Track(fn, step=step, exit=ex, x0=(None, (), frozenset(), frozenset(), False, False),
              pure=('dup2', 'sigaction', 'setsid', 'chdir', 'perror', 'close', '__errno_location'), stable=('write_input', 'read_output', 'error', 'is_spawn', 'detached', 'workdir')).run()
    R.cur = 'child'
    if not n['exec']:
        R.bad(fns[0], fns[0].blocks[fns[0].order[0]].ins[0].where() if hasattr(fns[0], 'order') else next(iter(fns[0].instrs())).where(), 'no child runs a program', None)
    R.floor(n['end'], 1, 'ends of a child that could not run', must=True)
    R.floor(n['ret'], 2, 'ways of going on in the parent', must=True)


def sep(m, e):
    if e[0] != 'g' or e[1] not in m.globals:
        return None
    import re
    q = re.search(r' c"((?:[^"\\]|\\.)*)"', m.globals[e[1]])
    return q.group(1).replace('\\00', '') if q else None


def arguments(R):
    R.cur = 'args'
    m = R.prog.std()
    fn = m.fn('exec')
    R.saw(fn)
    n = [0]

    # x = (joined, split, stored, launched)
    def step(x, i, T):
        jo, sp, st, la, rec = x
        nm = name(i)
        if nm == 'str_cat_ex':
            a = [T.ev(o) for o in i.ops]
            none = T.null(('arg', 1))
            k = wide(a[0])
            if k[0] == 'select' and k[1][0] == 'cmp' and k[1][2:] == (('arg', 1), Z):
                k1, k0 = (k[2], k[3]) if k[1][1] == 'eq' else (k[3], k[2])
                good = k1 == ('int', 1) and k0 == ('int', 3)
            else:
                good = none is True and k == ('int', 1) or none is False and k == ('int', 3)
            R.check(good, fn, i.where(), 'the program gets more or fewer arguments than given', trace=T.trace())
            R.check(a[1] == ('arg', 0) and (len(a) < 3 or sep(m, a[2]) == ',') and (len(a) < 4 or a[3] == ('arg', 1)), fn, i.where(),
                    'the program gets other arguments than given', trace=T.trace())
            jo = ('call', nm, i.dest)
        elif nm == 'exec_info':
            a = [wide(T.ev(o)) for o in i.ops]
            R.check(a[0] == Z and a[1] == Z and all(e in (M1, Z) for e in a[2:]), fn, i.where(), 'a child without settings gets some', trace=T.trace())
            rec = ('call', nm, i.dest)
        elif nm == 'str_split_ex':
            a = [T.ev(o) for o in i.ops]
            R.check(sep(m, a[1]) == ',' and (jo is not None and a[0] == jo or a[0] == ('arg', 0)), fn, i.where(), 'other arguments than given are split', trace=T.trace())
            sp = ('call', nm, i.dest)
        elif i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] == 'argv':
                st = a[1], v
        elif nm and m.fns.get(nm) is not None and any(True for _ in calls(m.fns[nm], *FORKS)):
            a = [T.ev(o) for o in i.ops]
            R.check(a[0] == ('arg', 0) and st is not None and st[1] == sp and sp is not None, fn, i.where(), 'the program gets other arguments than given', trace=T.trace())
            R.check(st is not None and a[1] == st[0] and (a[1] == ('arg', 2) or a[1] == rec and T.null(('arg', 2)) is True), fn, i.where(), 'another record is used than the one given', trace=T.trace())
            la = ('call', nm, i.dest)
            n[0] += 1
        return (jo, sp, st, la, rec)

    def ex(x, t, T, rv):
        if x[3] is not None:
            R.check(wide(rv) == x[3], fn, t.where(), 'what the launch gave is not told', trace=T.trace())
        else:
            R.check(wide(rv)[0] == 'int' and wide(rv)[1] < 0, fn, t.where(), 'a launch is told although no child was made', trace=T.trace())
            R.check(x[4] is not None and T.null(x[4]) is True or x[0] is not None and T.null(x[0]) is True, fn, t.where(), 'no child is made though nothing failed', trace=T.trace())
    if any(True for _ in calls(fn, *FORKS)):
        return
    Track(fn, step=step, exit=ex, x0=(None, None, None, None, None)).run()
    R.floor(n[0], 1, 'launches', must=True)

    fn = m.fn('exec_info')
    R.saw(fn)
    k = [0]
    WANT = {('write_input', 1): 2, ('read_output', 1): 3, ('error', 1): 4}

    def step2(x, i, T):
        nf, st = x
        nm = name(i)
        if nm == 'events_new_fd':
            nf = ('call', nm, i.dest)
        elif i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            e = end_of(a)
            if e:
                R.check(WANT.get(e) is not None and wide(v) == ('arg', WANT[e]), fn, i.where(), 'an end is set to another file than asked for', trace=T.trace())
                st = st | {e[0]}
            elif a[0] == 'fld' and a[3] == 'detached':
                R.check(wide(v) == ('arg', 1) or wide(v)[0] == 'cmp' and mentions(v, lambda y: y == ('arg', 1)), fn, i.where(), 'the child is detached without being asked to, or not', trace=T.trace())
                st = st | {'detached'}
            elif a[0] == 'fld' and a[3] == 'env' and v != Z:
                R.check(v[0] == 'call' and v[1] == 'str_split_ex', fn, i.where(), 'another environment is noted than the one given', trace=T.trace())
                st = st | {'env'}
            elif a[0] == 'fld' and a[3] == 'fd' and wide(v) == nf:
                st = st | {'fd'} if a[2] in ('execinfo_s', None) or mentions(a[1], lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[3] == 'process') else st
        elif nm == 'str_split_ex':
            a = [T.ev(o) for o in i.ops]
            R.check(a[0] == ('arg', 0) and sep(m, a[1]) == ';', fn, i.where(), 'another environment is split', trace=T.trace())
        return (nf, st)

    def ex2(x, t, T, rv):
        nf, st = x
        tr, w = T.trace(), t.where()
        none = nf is not None and lt0(T, nf)
        if rv == Z:
            R.check(none is not False or nf is None, fn, w, 'a record that was made is not given', trace=tr)
            return
        k[0] += 1
        R.check(none is False, fn, w, 'a record is given although there was room for none', trace=tr)
        R.check('detached' in st and 'fd' in st, fn, w, 'the record is not filled in', trace=tr)
        for j, (p, a) in enumerate((('write_input', 2), ('read_output', 3), ('error', 4))):
            R.check(p in st or T.null(('arg', a)) is True, fn, w, 'an end asked for is left out', trace=tr)
        has = any(v and mentions(q, lambda y: isinstance(y, tuple) and y[:2] == ('call', 'str_has')) for q, v in T.F.items()) or \
            any(not v and q[0] == 'eq' and q[2] == Z and q[1][:2] == ('call', 'str_has') for q, v in T.F.items())
        lacks = T.null(('arg', 0)) is True or any(v and q[0] == 'eq' and q[2] == Z and mentions(q[1], lambda y: isinstance(y, tuple) and y[:2] == ('call', 'str_has')) for q, v in T.F.items())
        R.check('env' in st or lacks, fn, w, 'the environment given is left out', trace=tr)
    Track(fn, step=step2, exit=ex2, x0=(None, frozenset()), pure=('str_has',)).run()
    R.floor(k[0], 1, 'records given', must=True)


# ------------------------------------------------------------------ the wait
def waits(R):
    R.cur = 'wait'
    m = R.prog.std()
    fn = m.fn('exec_wait')
    R.saw(fn)
    n = [0, 0]
    PID = ('si_pid', '_pad', 'f0', 'f1')

    def pid_of(p):
        # the number of the child found: the member the union starts with
        return p is not None and p[0] == 'fld' and p[3] in ('_pad', 'si_pid')

    def interrupted(T):
        return [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == ('int', 4) and place(q[1]) is not None and place(q[1])[:2] == ('call', '__errno_location')
                or q[0] == 'eq' and q[2] == ('int', 4) and wide(q[1])[:2] == ('call', 'os_geterror')]

    def step(x, i, T):
        wt, clr, out, rel, errno = x
        nm = name(i)
        if nm == 'waitid':
            a = [T.ev(o) for o in i.ops]
            R.check(a[0] == ('int', 1) and fieldval(a[1], 'ps') and mentions(a[1], lambda y: y == ('arg', 0)), fn, i.where(), 'another child is waited for', trace=T.trace())
            t0 = T.null(('arg', 1))
            o = wide(a[3])
            flags = None
            if o[0] == 'int':
                flags = o[1]
            R.check(flags is not None and flags & 4 and not flags & ~5 and (t0 is True) == bool(flags & 1) and t0 is not None, fn, i.where(),
                    'the wait is of another kind than asked for', trace=T.trace())
            if flags is not None and flags & 1:
                R.check(clr, fn, i.where(), 'what an earlier wait found may be taken for this one', trace=T.trace())
            if wt is not None:
                R.check((T.null(wt) is False or lt0(T, wt) is True or T.fact(('eq', wt, M1)) is True) and interrupted(T)[-1:] == [True], fn, i.where(),
                        'a wait is repeated that was not interrupted', trace=T.trace())
            wt = ('call', nm, i.dest)
        elif i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if pid_of(a):
                clr = v == Z
            elif a == ('arg', 2):
                out = v
            elif a[0] == 'call' and a[1] == '__errno_location':
                errno = v
        elif nm and nm.startswith('llvm.memset'):
            clr = T.ev(i.ops[1]) == Z and root(T.ev(i.ops[0]))[0] == 'alloca' or clr
        elif nm in CLOSES:
            R.check(T.ev(i.ops[0]) == ('arg', 0) or wide(T.ev(i.ops[0])) == ('arg', 0), fn, i.where(), 'something else than the record of the child is closed', trace=T.trace())
            R.check(not rel, fn, i.where(), 'the record of the child is released twice', trace=T.trace())
            rel = True
        return (wt, clr, out, rel, errno)

    def ex(x, t, T, rv):
        wt, clr, out, rel, errno = x
        tr, w = T.trace(), t.where()
        n[0] += 1
        det = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and fieldval(q[1], 'detached')]
        if wt is None:
            R.check(rv == Z and det[-1:] == [False], fn, w, 'a child is not waited for', trace=tr)
            return
        R.check(det[-1:] == [True], fn, w, 'a detached child is waited for', trace=tr)
        found = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and pid_of(place(q[1]))]
        worked = ok0(T, wt)
        if rv == Z:
            n[1] += 1
            R.check(worked and found[-1:] == [False], fn, w, 'a child that still runs is reported as ended', trace=tr)
            R.check(rel, fn, w, 'the record of a child that ended stays in use', trace=tr)
            if out is None:
                R.check(T.null(('arg', 2)) is True, fn, w, 'how the child ended is not told', trace=tr)
                return
            code = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == ('int', 1) and fieldval(q[1], 'si_code')]
            e = wide(out)

            def status(y):
                p = place(y)
                return p is not None and p[0] == 'fld' and p[3] in ('si_status', 'f2') and mentions(p, lambda z: isinstance(z, tuple) and z[:1] == ('fld',) and z[3] in ('_sifields', 'si_status', '_sigchld'))

            def negated(y):
                y = wide(y)
                return y[0] == 'bin' and (y[1] == 'sub' and y[2] == Z and status(y[3]) or y[1] == 'mul' and M1 in y[2:] and any(status(q) for q in y[2:]))
            if e[0] == 'select' and e[1][0] == 'cmp' and fieldval(e[1][2], 'si_code') and e[1][3] == ('int', 1):
                a, b = (e[2], e[3]) if e[1][1] == 'eq' else (e[3], e[2])
                good = status(a) and negated(b)
            else:
                good = code[-1:] == [True] and status(e) or code[-1:] == [False] and negated(e)
            R.check(good, fn, w, 'how the child ended is not what is told', trace=tr)
        else:
            R.check(wide(rv)[0] == 'int' and wide(rv)[1] < 0, fn, w, 'neither an end nor an error is told', trace=tr)
            R.check(not rel, fn, w, 'the record of a child that still runs is released', trace=tr)
            if worked:
                R.check(found[-1:] == [True], fn, w, 'the end of a child is lost', trace=tr)
                R.check(errno == ('int', 110), fn, w, 'a child that still runs is not told as such', trace=tr)
            else:
                R.check(interrupted(T)[-1:] == [False], fn, w, 'an interrupted wait is given up', trace=tr)
    Track(fn, step=step, exit=ex, x0=(None, False, None, False, None), pure=('__errno_location', 'os_geterror')).run()
    R.floor(n[1], 1, 'ends of a wait', must=True)
    R.floor(n[0] - n[1], 2, 'waits without an end', must=True)

    R.cur = 'release'
    fn = m.fn('os_close')
    R.saw(fn)
    CH = 8
    k = [0]

    def step3(x, i, T):
        fr, cl, un = x
        nm = name(i)
        if i.op == 'store':
            a = T.ev(i.ops[1])
            if a[0] == 'fld' and a[3] == 'type' and mentions(a, lambda y: y == ('arg', 0)):
                un = wide(T.ev(i.ops[0])) == Z
        elif nm == 'events_free_fd':
            R.check(not un, fn, i.where(), 'what a record holds is not released before it is up for use', trace=T.trace())
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'another record is released', trace=T.trace())
            fr = True
        elif nm == 'close':
            e = wide(T.ev(i.ops[0]))
            R.check(not cl, fn, i.where(), 'a descriptor is closed twice', trace=T.trace())
            cl = True
            k[0] += 1
            plain = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and q[1][:2] == ('call', 'events_valid_fd')]
            typ = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == ('int', CH) and fieldval(q[1], 'type')]
            R.check(e == ('arg', 0) and plain[-1:] != [False] or e[:2] == ('call', 'events_get_fd') or fieldval(e, 'fd'), fn, i.where(),
                    'another descriptor is closed', trace=T.trace())
            R.check(plain[-1:] == [True] or typ[-1:] == [False], fn, i.where(), 'the number of a child process is closed as a descriptor', trace=T.trace())
        return (fr, cl, un)

    def ex3(x, t, T, rv):
        fr, cl, un = x
        plain = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == Z and q[1][:2] == ('call', 'events_valid_fd')]
        typ = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == ('int', CH) and fieldval(q[1], 'type')]
        none = T.fact(('eq', ('arg', 0), M1)) is True or lt0(T, ('arg', 0)) is True
        R.check(cl or none or typ[-1:] == [True], fn, t.where(), 'a descriptor is not closed', trace=T.trace())
        R.check(fr and un or none or plain[-1:] == [True], fn, t.where(), 'the record of a descriptor stays in use', trace=T.trace())
    Track(fn, step=step3, exit=ex3, x0=(False, False, False), pure=('events_valid_fd',), stable=('type',)).run()
    R.floor(k[0], 1, 'descriptors closed', must=True)


# ------------------------------------------------------------------ spawn
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
for _u in 'su':
    CMP.update({_u + 'lt': lambda a, b: a < b, _u + 'le': lambda a, b: a <= b, _u + 'gt': lambda a, b: a > b, _u + 'ge': lambda a, b: a >= b})


class Ends:
    """which ends of the pairs were closed, or found to be none"""

    def __init__(self, fn):
        self.fn = fn
        self.iv = {}
        for h in loop_headers(fn):
            L = Loop(fn, h)
            for d, (s, st) in L.iv.items():
                self.iv[d] = (L, S(s), st)

    def span(self, k):
        """the numbers an index takes in the rounds of its loop, or nothing"""
        t, c = lin(k)
        if len(t) != 1 or list(t.values()) != [1]:
            return set()
        ph = list(t)[0]
        if ph[0] != 'phi' or ph[1] not in self.iv:
            return set()
        L, s, st = self.iv[ph[1]]
        if s[0] != 'int':
            return set()
        for i, pol, to in L.exits():
            e = self.fn.ex(i.ops[0])
            if e[0] != 'cmp' or e[3][0] != 'int' or i.blk.name != L.h:
                continue
            te, ce = lin(wide(e[2]))
            if te != {ph: 1}:
                continue
            got, v = set(), s[1]
            for _ in range(8):
                if CMP[e[1]](v + ce, e[3][1]) == pol:
                    return got
                got.add(v + c)
                v += st
        return set()

    def skips(self, rounds, p, i):
        """a loop that has at least one round is left before its first"""
        h = i.blk.name
        if h in rounds:
            return False
        for d, (L, s, st) in self.iv.items():
            if L.h == h and self.span(('phi', d)):
                return any(b is i and literal(self.fn.ex(b.ops[0]), pol)[1] == p for b, pol, to in L.exits())
        return False

    def keys(self, e):
        p = end_of(place(e))
        if p is None:
            return frozenset()
        n, k = p
        if isinstance(k, tuple):
            return frozenset((n, v) for v in self.span(k) if v in (0, 1))
        return frozenset({(n, k)})


def told(R):
    m = R.prog.std()
    fn = m.fn('spawning')
    R.saw(fn)
    E = Ends(fn)
    n = [0, 0]
    ALL = frozenset((p, k) for p in ENDS for k in (0, 1))

    # x = (launched, watched, waits, told, closed, no pipes)
    def step(x, i, T):
        la, wa, wt, to, cl, noio, dl, stat, rounds = x
        nm = name(i)
        if nm == 'exec':
            a = [T.ev(o) for o in i.ops]
            R.cur = 'told'
            args = [nodest(e) for e in a]
            want = [('load', ('idx', ('load', ('arg', 0)), ('int', k), None)) for k in (0, 1, 2)]
            R.check(la is None and len(set(args)) == 3, fn, i.where(), 'the child is not launched as asked, or twice', trace=T.trace())
            la = ('call', nm, i.dest)
        elif nm == 'events_add':
            R.cur = 'pipes'
            a = [T.ev(o) for o in i.ops]
            e = end_of(place(a[1]))
            R.check(e is not None and e[0] == 'read_output', fn, i.where(), 'another pipe is watched', trace=T.trace())
            R.check(la is not None and above0(T, la) is True, fn, i.where(), 'a pipe is watched without a child', trace=T.trace())
            wa = (e, ('call', nm, i.dest))
        elif nm == 'exec_wait':
            R.cur = 'told'
            a = [T.ev(o) for o in i.ops]
            R.check(wide(a[0]) == la, fn, i.where(), 'another child is waited for', trace=T.trace())
            R.check(wide(a[1]) == Z, fn, i.where(), 'waiting for a child holds up all tasks', trace=T.trace())
            wt = ('call', nm, i.dest)
            stat = a[2]
        elif nm == 'events_del':
            dl = dl or end_of(place(T.ev(i.ops[0])))
        elif nm in CLOSES:
            R.cur = 'pipes'
            k = E.keys(T.ev(i.ops[0]))
            if k:
                w = wa and wa[0]
                if w and w in k:
                    R.check(dl == w or not ok0(T, wa[1]), fn, i.where(), 'a pipe is closed while it is watched', trace=T.trace())
                ended = wt is not None and T.null(wt) is not None
                R.check(wt is None or T.null(wt) is True or running(T) is False, fn, i.where(), 'a pipe is closed while the child runs', trace=T.trace())
                cl = cl | k
        elif i.op == 'call' and nm is None:
            c = T.ev(i.attr['callee'])
            if fieldval(c, 'exit_func'):
                R.cur = 'told'
                a = [T.ev(o) for o in i.ops]
                R.check(to == 0, fn, i.where(), 'the end of a child is told twice', trace=T.trace())
                R.check(wt is not None and (T.null(wt) is True or running(T) is False), fn, i.where(), 'the end of a child is told while it runs', trace=T.trace())
                R.check(all(place(e) == stat or wide(e) == wide(T.mem(stat) or Z) and T.mem(stat) is not None for e in a) and stat is not None, fn, i.where(),
                        'another status is told than the child ended with', trace=T.trace())
                to += 1
        elif i.op == 'store' and stat is not None and wt is not None and T.ev(i.ops[1]) == stat:
            R.cur = 'told'
            R.bad(fn, i.where(), 'the status of the child is written over', T.trace())
        return (la, wa, wt, to, cl, noio, dl, stat, rounds)

    def running(T):
        """the last wait says that the child still runs"""
        got = [v for q, v in T.F.items() if q[0] == 'eq' and q[2] == ('int', 110) and
               (wide(q[1])[:2] == ('call', 'os_geterror') or place(q[1]) is not None and place(q[1])[:2] == ('call', '__errno_location'))]
        return got[-1] if got else None

    def edge(x, k, p, i, T):
        la, wa, wt, to, cl, noio, dl, stat, rounds = x
        if E.skips(rounds, p, i):
            return None
        if k[0] == 'eq' and p and k[2] == M1:
            cl = cl | E.keys(k[1])
        if k[0] == 'eq' and k[2] == Z and fieldval(k[1], 'io_func'):
            noio = p
        if k[0] == 'eq' and k[2] == Z and fieldval(k[1], 'exit_func') and p and wt is not None and to == 0:
            to = -1                     # nobody asked to be told
        return (la, wa, wt, to, cl, noio, dl, stat, rounds)

    def ex(x, t, T, rv):
        la, wa, wt, to, cl, noio, dl, stat, rounds = x
        tr, w = T.trace(), t.where()
        n[0] += 1
        R.cur = 'pipes'
        R.check(noio is True or cl == ALL, fn, w, 'a pipe of the child stays open', trace=tr)
        R.cur = 'told'
        up = la is not None and above0(T, la)
        if wt is None:
            R.check(to == 0, fn, w, 'the end of a child is told that was not launched', trace=tr)
            R.check(up is False or wa is not None and not (T.null(wa[1]) is True), fn, w, 'a child is not waited for', trace=tr)
        else:
            n[1] += 1
            R.check(to != 0, fn, w, 'the end of a child is not told', trace=tr)
            R.check(T.null(wt) is True or running(T) is False, fn, w, 'a child is given up while it runs', trace=tr)
    Track(fn, step=step, edge=edge, exit=ex, x0=(None, None, None, 0, frozenset(), None, None, None, frozenset()), back=lambda x, h, again, T: x[:8] + ((x[8] | {h}) if again else (x[8] - {h}),),
          keep=lambda nm, a: root(a)[0] == 'alloca' and nm != 'exec_wait',
          stable=('write_input', 'read_output', 'error', 'io_func', 'exit_func'), pure=('os_geterror', '__errno_location')).run()
    R.cur = 'told'
    R.floor(n[1], 1, 'children that end', must=True)
    R.floor(n[0] - n[1], 1, 'launches that fail', must=True)


def spawns(R):
    R.cur = 'pipes'
    m = R.prog.std()
    k = 0
    for nm_ in ('spawn', 'spawn_cgi'):
        fn = m.fn(nm_)
        R.saw(fn)
        E = Ends(fn)
        io = ('arg', 2 if nm_ == 'spawn' else 3)
        n = [0, 0]

        # x = (record, pipes made, closed, released, task, pushed)
        def step(x, i, T):
            rec, pi, cl, rel, ta, pu, ar, st, rounds = x
            nm = name(i)
            if nm == 'exec_info':
                a = [wide(T.ev(o)) for o in i.ops]
                R.check(a[0] == (('arg', 2) if nm_ == 'spawn_cgi' else Z), fn, i.where(), 'the child gets another environment', trace=T.trace())
                rec = ('call', nm, i.dest)
            elif nm in ('pipe2', 'pipe'):
                p = T.ev(i.ops[0])
                e = end_of(p)
                R.check(e is not None and e[1] == 0 and root(p) == rec and e[0] not in [q[0] for q in pi], fn, i.where(), 'a pipe is made elsewhere than in the record of the child', trace=T.trace())
                if nm == 'pipe2':
                    R.check(T.ev(i.ops[1])[0] == 'int' and T.ev(i.ops[1])[1] & 2048, fn, i.where(), 'a pipe of the child blocks', trace=T.trace())
                pi = pi + ((e and e[0], ('call', nm, i.dest)),)
            elif nm in CLOSES:
                v = T.ev(i.ops[0])
                if fieldval(v, 'fd') and root(place(v)) == rec:
                    R.check(ta is None, fn, i.where(), 'the record of a child is given up', trace=T.trace())
                    rel = True
                else:
                    cl = cl | E.keys(v)
            elif nm == 'arrays':
                a = [T.ev(o) for o in i.ops]
                R.check(a == [('int', 3), ('arg', 0), ('arg', 1), rec], fn, i.where(), 'another child is launched than the one asked for', trace=T.trace())
                ar = ('call', nm, i.dest)
            elif nm == 'create_task':
                a = [T.ev(o) for o in i.ops]
                if a[1] == ('g', 'spawning'):
                    R.check(a[2] == ar and ar is not None, fn, i.where(), 'another child is launched than the one asked for', trace=T.trace())
                    R.check(st >= {'io_func', 'exit_func', 'is_spawn'}, fn, i.where(), 'a child is launched before its record is filled in', trace=T.trace())
                    ta = ('call', nm, i.dest)
            elif nm == 'task_push':
                if ta is not None and T.ev(i.ops[0]) == ta:
                    pu += 1
            elif i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                if a[0] == 'fld' and root(a) == rec and a[3] in ('io_func', 'exit_func', 'is_spawn'):
                    want = {'io_func': io, 'exit_func': ('arg', io[1] + 1), 'is_spawn': ('int', 1)}[a[3]]
                    R.check(v == want, fn, i.where(), 'what was asked for the child is not noted', trace=T.trace())
                    st = st | {a[3]}
            return (rec, pi, cl, rel, ta, pu, ar, st, rounds)

        def edge(x, k, p, i, T, E=E):
            if E.skips(x[8], p, i):
                return None
            if k[0] == 'eq' and p and k[2] == M1:
                return x[:2] + (x[2] | E.keys(k[1]),) + x[3:]
            return x

        def ex(x, t, T, rv):
            rec, pi, cl, rel, ta, pu, ar, st, rounds = x
            tr, w = T.trace(), t.where()
            made = {q[0] for q in pi if T.null(q[1]) is not False and lt0(T, q[1]) is not True}
            if ta is None:
                n[0] += 1
                R.check(rv == Z, fn, w, 'a child is given that was not launched', trace=tr)
                R.check(all((p, k) in cl for p in made for k in (0, 1)), fn, w, 'a pipe made for a child that was not launched stays open', trace=tr)
                R.check(rel or T.null(rec) is True, fn, w, 'the record of a child that was not launched stays in use', trace=tr)
            else:
                n[1] += 1
                R.check(pu == 1, fn, w, 'the child is launched more than once, or never', trace=tr)
                R.check(not cl and not rel, fn, w, 'a child is launched with closed pipes', trace=tr)
                want = set() if T.null(io) is True else {'write_input', 'read_output'} | ({'error'} if nm_ == 'spawn_cgi' and T.null(('arg', 2)) is False else set())
                R.check(want <= made and (not made or T.null(io) is False), fn, w, 'a child is launched without its pipes', trace=tr)
                R.check(rv in (Z, rec) or rv[0] == 'select' and set(rv[2:]) <= {Z, rec}, fn, w, 'another record is given than that of the child', trace=tr)
        Track(fn, step=step, edge=edge, exit=ex, x0=(None, (), frozenset(), False, None, 0, None, frozenset(), frozenset()), back=lambda x, h, again, T: x[:8] + ((x[8] | {h}) if again else (x[8] - {h}),),
              stable=('write_input', 'read_output', 'error')).run()
        R.floor(n[0], 2, 'launches given up in %s' % nm_, must=True)
        R.floor(n[1], 1, 'launches in %s' % nm_, must=True)


# ------------------------------------------------------------------ environment
def environment(R):
    R.cur = 'environment'
    m = R.prog.std()
    fn = m.fn('exec_addenv')
    R.saw(fn)
    n = [0]

    def ge0(d):
        """a difference that is a constant of at least 0"""
        t, c = d
        return not t and c >= 0

    def V(e):
        """a value, with the size noted as one thing wherever it was read (it is looked at anew after each note)"""
        return sub_expr(S(wide(e)), lambda y: ('noted',) if y[0] in ('ld', 'load') and y[1] == ('arg', 1) else None)

    # where the arguments are read, in order
    reads_ = [j.dest for b in fn.order for j in b.ins if j.op == 'phi' and
              any(mentions(fn.ex(v), lambda y: y[:1] == ('fld',) and y[3] in ('reg_save_area', 'overflow_arg_area')) for v, _ in j.attr['inc'])]

    def pairs(i):
        got = []
        for o in i.ops[3:5]:
            e = S(fn.ex(o))
            if e[0] != 'load' or e[1][0] != 'phi':
                return False
            got.append(e[1][1])
        return got == reads_

    # x = (block, its size, value of *size before, end written at, length measured)
    def step(x, i, T):
        bl, sz, end, ms, full = x
        nm = name(i)
        if nm == 'snprintf':
            a = [T.ev(o) for o in i.ops]
            at = a[0]
            base, off = (at[1], at[2]) if at[0] == 'idx' else (at, Z)
            if bl is not None and base == bl:
                n[0] += 1
                room = lsub(lin(sz), lin(('bin', 'add', V(off), V(a[1]))))
                R.check(ge0(room), fn, i.where(), 'a variable is written beyond its block', trace=T.trace())
                whole = ms is not None and ms[1] == tuple(nodest(e) for e in a[2:]) and ge0(lsub(lin(V(a[1])), lin(('bin', 'add', ms[0], ('int', 1)))))
                R.check(bool(whole), fn, i.where(), 'a variable is cut short', trace=T.trace())
                old = V(off) == ('noted',)
                R.check(old, fn, i.where(), 'a variable is not put behind the ones before it', trace=T.trace())
                end = lin(('bin', 'add', V(off), ms[0])) if ms else None
            else:
                ms = (('call', nm, i.dest), tuple(nodest(e) for e in a[2:]))
                R.check(root(a[0])[0] == 'alloca' or a[0] == Z, fn, i.where(), 'a variable is written where there may be no room', trace=T.trace())
                full = sep(m, a[2]) == '%s=%s;'
                R.check(pairs(i), fn, i.where(), 'what is written is not the next name and its value', trace=T.trace())
                R.check(full, fn, i.where(), 'a variable is written in another form', trace=T.trace())
        elif nm in ('events_realloc', 'realloc', 'rprealloc'):
            bl = ('call', nm, i.dest)
            sz = V(T.ev(i.ops[1]))
            end = None
        elif nm and nm.startswith('llvm.memcpy'):
            a = [T.ev(o) for o in i.ops]
            at = a[0]
            base, off = (at[1], at[2]) if at[0] == 'idx' else (at, Z)
            if bl is not None and base == bl:
                n[0] += 1
                R.check(ge0(lsub(lin(sz), lin(('bin', 'add', V(off), V(a[2]))))), fn, i.where(), 'a variable is written beyond its block', trace=T.trace())
                R.bad(fn, i.where(), 'a variable is copied from where it may have been cut short', T.trace())
        elif i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a == ('arg', 1):
                R.check(end is not None and lin(V(v)) == end, fn, i.where(), 'the size is not that of the text', trace=T.trace())
                end = 'noted'
                bl = sz = None
                ms = ('done', ())
        return (bl, sz, end, ms, full)

    def ex(x, t, T, rv):
        bl, sz, end, ms, full = x
        if n[0] and ms is not None:
            R.check(end == 'noted', fn, t.where(), 'the text has no end, or another size than noted', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(None, None, None, None, False), track_mem=lambda a: False).run()
    R.floor(n[0], 1, 'variables written', must=True)


RULES = [start, launch, arguments, waits, told, spawns, environment]

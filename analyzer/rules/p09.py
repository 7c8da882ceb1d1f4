"""P09: try/catch/finally and throw."""
from rules.common import *
from flow import *
from track import Track, nodest, root

TLS = ('g', 'events_except_tls')
ROOT = ('g', 'events_except_buffer')
HELP = ['ex_init', 'ex_update', 'ex_local', 'try_finish', 'try_updating_err', 'try_rethrow', 'ex_unwind_set', 'ex_swap_set',
        'ex_swap_reset', 'ex_uncaught_exception', 'except']
START, TRY, THROW, FINAL, DONE, CATCH = -1, 0, 1, 2, 3, 4
STOP = {'ex_throw', 'ex_terminate'}
REC = (('ex', 0), ('file', 1), ('line', 2), ('function', 3), ('_panic', 4))
CUR = ('sym', 'CUR')


def F(base, f):
    return ('fld', base, None, f)


def isld(v, a):
    return v is not None and v[0] in ('ld', 'load') and v[1] == a


def view(prog):
    prog.std()
    return prog.view(frozenset(n for n in (prog._intern | prog.ACCESSORS | set(HELP)) if n in HELP or not prog.KEEP.match(n)))


def tls_of(fn, v):
    """name of the thread-local variable an address operand stands for"""
    d = fn.defs.get(v[1]) if v[0] == 'ssa' else None
    if d is not None and d.op == 'call' and (d.attr['name'] or '').startswith('llvm.threadlocal.address'):
        return d.ops[0][1]
    return v[1] if v[0] == 'g' else None


def swaps(fn):
    """the places where a function gives the thread to another task"""
    out = []
    for i in fn.instrs():
        if i.op == 'call':
            c = fn.ex(i.attr['callee']) if i.attr['name'] is None else ('g', i.attr['name'])
            if c[0] == 'load':
                c = c[1]
            if c == ('g', 'coro_swap') or c == ('g', 'swapcontext'):
                out.append(i)
    return out


class Chain:
    """which functions may leave another innermost block behind, or change the records of blocks"""

    def __init__(self, m):
        self.m, self.memo = m, {}

    def writes(self, n):
        """names of the block fields (and TLS) a function may write; hooks and release functions are taken to leave them alone"""
        if n in self.memo:
            return self.memo[n]
        seen, st, r = set(), [n], set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.m.fns.get(k)
            if f is None:
                continue
            f.ensure()
            sw = swaps(f)
            lazy = self.lazy(f)
            for i in f.instrs():
                if i.op == 'store':
                    if i.blk.name in lazy:
                        continue
                    g = tls_of(f, i.ops[1])
                    if g:
                        r.add(g)
                    else:
                        a = f.ex(i.ops[1])
                        if a[0] == 'fld' and a[2] in ('ex_context_s', 'ex_ptr_s', 'ex_error_s'):
                            r.add(a[3])
                elif i.op == 'call':
                    c = i.attr['name']
                    if i in sw:
                        r.add(TLS[1])
                    if c and c not in STOP:      # these do not come back
                        st.append(c)
        self.memo[n] = r
        return r

    def lazy(self, f):
        """blocks that only run while the thread has no block at all yet"""
        dom, out = dominators(f), set()
        for b in f.order:
            t = b.term
            if t.op == 'br' and t.ops:
                k, p = literal(f.ex(t.ops[0]))
                if not isinstance(k, bool) and k[0] == 'eq' and k[2] == ('int', 0) and k[1][0] == 'load' and \
                        mentions(k[1], lambda y: y[0] == 'call' and y[2] in f.defs and tls_of(f, ('ssa', y[2])) == TLS[1]):
                    h = t.attr['targets'][0 if p else 1]
                    if len(f.blocks[h].pred) == 1:
                        out |= {x.name for x in f.order if h in dom[x.name]}
        return out

    def keeps(self, n, a):
        if n is None:
            return a == TLS or a[0] == 'fld'
        w = self.writes(n)
        return a[0] in ('fld', 'g') and (a[3] if a[0] == 'fld' else a[1]) not in w


def track(fn, ch, init, edge=None, here=(), **k):
    def sure(x, key, pol, i, T):
        if key[0] == 'eq' and key[1] in here and key[2] == ('int', 0) and pol:
            return None
        if key[0] == 'eq' and key[1] in here and key[2] == CUR and pol or key[0] == 'eq' and key[2] in here and key[1] == CUR and pol:
            return None                 # the block and its error record are locals of the caller
        return edge(x, key, pol, i, T) if edge else x
    return Track(fn, init=lambda a: init.get(a), keep=ch.keeps, edge=sure, noreturn=STOP, pure={'is_ptr_usable', 'str_is'}, **k)


def tls(T, init):
    v = T.mem(TLS)
    return init.get(TLS) if v is None else v


def exceptions(R):
    m = view(R.prog)
    for k, t in TEXT:
        R.rule(k, t)
    ch = Chain(m)
    E, X = ('arg', 0), ('arg', 1)

    # ------------------------------------------------------------------ entering
    R.cur = 'enter'
    fn = m.fn('try_start')
    R.saw(fn)
    for cur in (CUR, 0):
        init = {TLS: cur}

        def ex(x, t, T, rv):
            B = ('arg', 2)
            v = T.mem(F(B, 'next'))
            good = v == CUR if cur == CUR and T.null(CUR) is not True else v == ROOT
            R.check(tls(T, init) == B, fn, t.where(), 'the block is not made the innermost one', trace=T.trace())
            R.check(good, fn, t.where(), 'the block does not remember the one around it', trace=T.trace())
            R.check(rv == F(B, 'buf'), fn, t.where(), 'what is returned is not the block\'s own place to come back to', trace=T.trace())
            v = T.mem(F(('arg', 1), 'stage'))
            R.check(v == ('arg', 0) or v is None and T.null(CUR) is not False, fn, t.where(), 'the block does not start at the stage given', trace=T.trace())
            for f in ('unstack', 'stack', 'is_rethrown'):
                v = T.mem(F(B, f))
                R.check(v is None or v == ('int', 0), fn, t.where(), 'the block starts with something left in ' + f, trace=T.trace())
        track(fn, ch, init, exit=ex, here=(('arg', 1), ('arg', 2))).run()

    # ------------------------------------------------------------------ stages
    R.cur = 'leave'
    fn = m.fn('try_next')
    R.saw(fn)
    for stage in (START, TRY, THROW, FINAL):
        for state in (0, THROW, CATCH, CATCH | THROW):
            for cur in (X, CUR):
                init = {TLS: cur, F(E, 'stage'): stage, F(X, 'state'): state}
                last = stage + 1 >= DONE
                what = 'stage %d, state %d: ' % (stage, state)

                def popped(T):
                    v = tls(T, init)
                    return isld(v, F(X, 'next')) if cur == X else v == CUR

                def step(x, i, T):
                    n = name(i)
                    if n == 'ex_throw':
                        a = [T.ev(o) for o in i.ops]
                        R.check(last and state & THROW, fn, i.where(), what + 'an exception is thrown again that must not be', trace=T.trace())
                        R.check(popped(T), fn, i.where(), what + 'thrown again while this block is still the innermost', trace=T.trace())
                        R.check(all(isld(a[j], F(X, f)) for f, j in REC), fn, i.where(), what + 'what is thrown again is not what was thrown', trace=T.trace())
                        return None
                    return x

                def ex(x, t, T, rv):
                    if not last:
                        R.check(rv == ('int', 1), fn, t.where(), what + 'the block ends early', trace=T.trace())
                        R.check(tls(T, init) == cur, fn, t.where(), what + 'the block stops being the innermost before it is done', trace=T.trace())
                        R.check(T.mem(F(E, 'stage')) == ('int', stage + 1), fn, t.where(), what + 'a stage is skipped or done twice', trace=T.trace())
                    else:
                        R.check(rv == ('int', 0), fn, t.where(), what + 'the block does not end', trace=T.trace())
                        R.check(not state & THROW, fn, t.where(), what + 'an exception nobody took is dropped', trace=T.trace())
                        R.check(popped(T), fn, t.where(), what + 'the block around is not the innermost again', trace=T.trace())
                track(fn, ch, init, step=step, exit=ex, here=(E, X, CUR)).run()

    # ------------------------------------------------------------------ catch
    R.cur = 'catch'
    fn = m.fn('try_catching')
    R.saw(fn)
    TY, E, X = ('arg', 0), ('arg', 1), ('arg', 2)
    for stage in (TRY, THROW, FINAL):
        for state in (0, THROW, CATCH, CATCH | THROW):
            for null in (0, 1):
                init = {F(E, 'stage'): stage, F(X, 'state'): state}
                what = 'stage %d, state %d%s: ' % (stage, state, ', catch_any' if null else '')
                live = state == THROW and stage == THROW

                # x = (kinds of str_is results by name, matched)
                def step(x, i, T):
                    if name(i) == 'str_is':
                        a = [T.ev(o) for o in i.ops]
                        o = [v for v in a if v != TY and v != ('int', 0)]
                        k = 'other'
                        if len(o) == 1:
                            b = m.gbytes(o[0][1]) if o[0][0] == 'g' else None
                            if b is not None and bytes(b).rstrip(b'\0') == b'_if':
                                k = 'if'
                            elif isld(o[0], F(X, 'ex')) or isld(o[0], F(E, 'name')):
                                k = 'name'
                        return (frozenset(dict(x[0], **{i.dest: k}).items()), x[1])
                    return x

                def edge(x, key, pol, i, T):
                    if key[0] == 'eq' and key[1] == TY and key[2] == ('int', 0) and pol:
                        return None             # the other case
                    if key[0] == 'eq' and key[1][0] == 'call' and key[1][1] == 'str_is' and key[2] == ('int', 0) and not pol or \
                            key[0] == 'true' and key[1][0] == 'call' and key[1][1] == 'str_is' and pol:
                        k = dict(x[0]).get(key[1][2])
                        if null:
                            return None         # nothing compares equal to no name
                        return (x[0], k if x[1] is None else x[1])
                    return x

                def ex(x, t, T, rv):
                    k = x[1]
                    want = live and (null or k in ('if', 'name'))
                    st = T.mem(F(X, 'state'))
                    st = ('int', state) if st is None else st
                    R.check(k != 'other', fn, t.where(), what + 'the exception is compared with something else than its name', trace=T.trace())
                    if rv[0] == 'call' and rv[1] == 'str_is':
                        return R.bad(fn, t.where(), what + 'the outcome does not depend on the stage', T.trace())
                    R.check(rv == ('int', int(bool(want))), fn, t.where(), what + (
                        'a part that matches does not run' if want else 'a part runs that does not match'), trace=T.trace())
                    exp = CATCH if want and k != 'if' else state
                    R.check(st == ('int', exp), fn, t.where(), what + ('the exception is not marked taken' if exp == CATCH else
                            'the exception is marked taken although the part does not take it'), trace=T.trace())
                    if want:
                        for a, b in (('name', 'ex'), ('line', 'line'), ('file', 'file'), ('function', 'function')):
                            R.check(isld(T.mem(F(E, a)), F(X, b)), fn, t.where(), what + '%s of the error is not that of the exception' % a, trace=T.trace())
                track(fn, ch, init, step=step, edge=edge, exit=ex, here=(E, X), x0=(frozenset(), None), args={0: 0} if null else {}).run()

    R.cur = 'finally'
    fn = m.fn('try_finallying')
    R.saw(fn)
    E, X = ('arg', 0), ('arg', 1)
    for stage, state in ((TRY, 0), (THROW, 0), (FINAL, 0), (FINAL, THROW), (FINAL, CATCH), (FINAL, CATCH | THROW)):
        init = {TLS: X, F(E, 'stage'): stage, F(X, 'state'): state}

        def ex(x, t, T, rv):
            run = stage == FINAL
            R.check(rv == ('int', int(run)), fn, t.where(), 'stage %d: %s' % (stage, 'the finally part does not run' if run else
                    'the finally part runs too early'), trace=T.trace())
            v = tls(T, init)
            R.check(isld(v, F(X, 'next')) if run else v == X, fn, t.where(), 'stage %d: %s' % (stage, 'an exception in the finally part comes back to '
                    'this block' if run else 'the block stops being the innermost before it is done'), trace=T.trace())
            if run:
                say = lambda c, msg: R.check(c, fn, t.where(), 'stage %d, state %d: %s' % (stage, state, msg), trace=T.trace())
                say(T.mem(F(E, 'is_caught')) == ('int', int(state == CATCH)), 'the finally part is not told whether the exception was taken')
                for a, b in (('name', 'ex'), ('line', 'line'), ('file', 'file'), ('function', 'function')):
                    say(not state or isld(T.mem(F(E, a)), F(X, b)), '%s of the error is not that of the exception' % a)
        track(fn, ch, init, exit=ex, here=(E, X)).run()

    throws(m, R, ch)
    caught(m, R, ch)
    tasks(m, R, ch)

    R.cur = 'chain'
    done = {'try_start', 'try_next', 'try_finallying'} | set(HELP)
    k = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'store' and tls_of(fn, i.ops[1]) == TLS[1]:
                k += 1
                v = i.ops[0]
                if fn.name in done or tls_of(fn, v) == ROOT[1] or fn.name in ('except_set', 'except_reset') or swaps(fn):
                    R.ok('%s: %s' % (fn.name, i.where()))
                else:
                    R.bad(fn, i.where(), 'the innermost block is changed here')
    R.floor(k, 4, 'places that change the innermost block')


def throws(m, R, ch):
    fn = m.fn('ex_throw')
    R.saw(fn)
    R.cur = 'throw'
    for uns in (0, 1):
        for cur in (CUR, 0, ROOT):
            init = {TLS: cur, F(CUR, 'unstack'): uns, F(ROOT, 'unstack'): uns}
            start = [o for o in (CUR, ROOT)]

            # x = (mask: None / 'held' / 'back', saved set, unwound, protected state)
            def begin(x, i, T, C):
                R.cur = 'throw'
                for f, j in REC:
                    R.check(f in x[4], fn, i.where(), 'unwinding starts before %s of the exception is recorded' % f, trace=T.trace())
                R.check(x[0] == 'held', fn, i.where(), 'unwinding starts without signals held off', trace=T.trace())
                R.check(not uns, fn, i.where(), 'unwinding starts again while it is going on', trace=T.trace())
                return (x[0], x[1], True, x[3], x[4])

            def ctx(T):
                c = tls(T, init)
                if c == ('int', 0) or c == 0 or c == CUR and T.null(CUR):
                    return ROOT
                return c

            def step(x, i, T):
                n = name(i)
                C = ctx(T)
                if i.op == 'store':
                    a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                    if a == F(C, 'unstack') and v != ('int', 0):
                        return begin(x, i, T, C)
                    for f, j in REC:
                        if a == F(C, f):
                            return x[:4] + (x[4] | {f} if v == ('arg', j) else x[4] - {f},)
                    return x
                if i.op != 'call':
                    return x
                if n == 'pthread_sigmask':
                    a = [T.ev(o) for o in i.ops]
                    R.cur = 'throw'
                    if a[2] != ('int', 0):
                        return ('held', a[2]) + x[2:]
                    R.check(a[1] == x[1] and a[0] == ('int', 2), fn, i.where(), 'the signal mask put back is not the one found', trace=T.trace())
                    return ('back',) + x[1:]
                if n is None or n == 'scope_unwind':
                    if n is None:
                        c = T.ev(i.attr['callee'])
                        if c[0] == 'ld' and c[1][0] == 'fld' and c[1][3] == 'func':
                            return release(x, i, T, c[1][1])
                        g = c[1] if c[0] == 'ld' else c
                        if g[0] == 'g' and 'setup' in g[1]:
                            return x
                    R.cur = 'throw'
                    R.check(x[2] and T.mem(F(C, 'unstack')) not in (None, ('int', 0)), fn, i.where(),
                            'cleanup runs although the block is not marked as unwinding', trace=T.trace())
                    return x
                if n == 'ex_terminate':
                    R.cur = 'throw'
                    root_ = C == ROOT or T.holds(('cmp', 'eq', C, ROOT)) is True
                    R.check(uns or root_, fn, i.where(), 'the program ends although a block is there to take the exception', trace=T.trace())
                    R.check(uns or x[2], fn, i.where(), 'the program ends without unwinding', trace=T.trace())
                    return None
                if n in ('siglongjmp', '__siglongjmp_chk', 'longjmp', '_longjmp'):
                    R.cur = 'throw'
                    a = [T.ev(o) for o in i.ops]
                    R.check(a[0] == F(C, 'buf'), fn, i.where(), 'control goes elsewhere than the innermost block', trace=T.trace())
                    v = a[1]
                    R.check(v[0] == 'int' and v[1] & 1 or v[0] == 'bin' and v[1] == 'or' and ('int', 1) in v[2:], fn, i.where(),
                            'the block is resumed without the exception pending', trace=T.trace())
                    R.check(v[0] == 'bin' and any(isld(y, F(C, 'state')) for y in v[2:]), fn, i.where(),
                            'the block is resumed without what it had already done', trace=T.trace())
                    R.check(not uns, fn, i.where(), 'an exception thrown while unwinding is delivered', trace=T.trace())
                    R.check(C != ROOT and T.holds(('cmp', 'eq', C, ROOT)) is False, fn, i.where(), 'control goes to a block that does not exist', trace=T.trace())
                    R.check(x[2], fn, i.where(), 'control goes on without unwinding', trace=T.trace())
                    R.check(x[0] == 'back', fn, i.where(), 'control goes on with the signals still held off', trace=T.trace())
                    for f in ('unstack', 'stack'):
                        R.check(T.mem(F(C, f)) == ('int', 0), fn, i.where(), 'control goes on with %s of the block left over' % f, trace=T.trace())
                    return None
                return x

            def release(x, i, T, P):
                R.cur = 'protected'
                C = ctx(T)
                a = [T.ev(o) for o in i.ops]
                q = T.fn.defs.get(P[1]) if P[0] == 'phi' else None
                good = False
                if q is not None and q.op == 'phi':
                    inc = [nodest(T.fn.ex(v)) for v, _ in q.attr['inc']]
                    good = any(e[0] == 'load' and field_of(e[1], 'stack') for e in inc) and \
                        all(e[0] == 'load' and (field_of(e[1], 'stack') or field_of(e[1], 'next') and e[1][1] == ('phi', q.dest)) for e in inc)
                R.check(good, fn, i.where(), 'the protected pointers are not taken in order, newest first', trace=T.trace())
                v = a[0]
                R.check(v[0] == 'ld' and isld(v[1], F(P, 'ptr')), fn, i.where(), 'what is released is not the protected pointer', trace=T.trace())
                R.check(T.mem(F(C, 'unstack')) not in (None, ('int', 0)), fn, i.where(), 'cleanup runs although the block is not marked as unwinding', trace=T.trace())
                return x
            track(fn, ch, init, step=step, x0=(None, None, False, None, frozenset())).run()

    protected(m, R, ch, fn)


def protected(m, R, ch, fn):
    R.cur = 'protected'
    n = [0]
    # x = (P of this round, released / null / None, reason to stop)

    def isP(e):
        return e[0] == 'phi' and any(nodest(fn.ex(v))[0] == 'load' and field_of(nodest(fn.ex(v))[1], 'next')
                                     for v, _ in fn.defs[e[1]].attr['inc'])

    def step(x, i, T):
        if i.op == 'call' and i.attr['name'] is None:
            c = T.ev(i.attr['callee'])
            if c[0] == 'ld' and c[1][0] == 'fld' and c[1][3] == 'func':
                n[0] += 1
                R.check(x != 'done', fn, i.where(), 'a protected pointer is released twice', trace=T.trace())
                R.check(x in ('done', 'some'), fn, i.where(), 'a release is called for no pointer', trace=T.trace())
                return 'done'
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] == 'stack' and v == ('int', 0) and x != 'out':
                R.check(x == 'stop', fn, i.where(), 'unwinding stops before all protected pointers are released', trace=T.trace())
                return 'out'
        return x

    def edge(x, key, pol, i, T):
        if x == 'out':
            return x
        if key[0] == 'eq' and key[2] == ('int', 0) and isP(key[1]) and pol:
            return 'stop'
        if key[0] == 'eq' and pol is False and mentions(key, lambda y: y[0] == 'fld' and y[3] == 'type' and isP(y[1])):
            return 'stop'
        if key[0] == 'eq' and mentions(key, lambda y: y[0] == 'call' and y[1] == 'is_ptr_usable') and pol:
            return 'stop'
        if key[0] == 'eq' and x in ('round', 'some') and mentions(key, lambda y: y[0] == 'fld' and y[3] == 'ptr'):
            if key[2] == ('int', 0) or key[1] == ('int', 0):
                return 'null' if pol else 'some'
            return 'stop' if pol else x
        return x

    def back(x, h, again, T):
        ph = [i for i in fn.blocks[h].ins if i.op == 'phi' and isP(('phi', i.dest))]
        if not ph:
            return x
        if again:
            R.check(x in ('done', 'null'), fn, fn.blocks[h].ins[-1].where(), 'a protected pointer is passed over', trace=T.trace())
        return 'round'
    track(fn, ch, {TLS: CUR, F(CUR, 'unstack'): 0}, step=step, edge=edge, back=back, x0='out').run()
    R.floor(n[0], 1, 'releases of protected pointers')

    f = m.fn('ex_protect_ptr')
    R.saw(f)
    k = next(a for a in range(len(f.args)) if f.args[a] == 'const_ptr') if 'const_ptr' in f.args else len(f.args) - 3
    node = ('arg', k)
    PROTECTED = next((f.ex(i.ops[0]) for i in f.instrs() if i.op == 'store' and f.ex(i.ops[1]) == ('fld', node, 'ex_ptr_s', 'type')), None)

    def ex(x, t, T, rv):
        for fld, v in (('next', ('sym', 'OLD')), ('ptr', ('arg', k + 1)), ('func', ('arg', k + 2))):
            R.check(T.mem(F(node, fld)) == v, f, t.where(), '%s of the protected pointer is not recorded' % fld, trace=T.trace())
        R.check(PROTECTED is not None and T.mem(F(node, 'type')) == PROTECTED, f, t.where(), 'the pointer is not marked protected', trace=T.trace())
        R.check(T.mem(F(CUR, 'stack')) == node, f, t.where(), 'the pointer is not the newest of the innermost block', trace=T.trace())
    track(f, ch, {TLS: CUR, F(CUR, 'stack'): ('sym', 'OLD')}, exit=ex, x0='', here={CUR, node}).run()

    f = m.fn('ex_unprotected_ptr')
    R.saw(f)
    node = ('arg', 0)
    for prot in (True, False):
        def edge(x, key, pol, i, T):
            if key[0] == 'eq' and key[2] == PROTECTED and key[1][0] == 'call' and key[1][1] == 'data_type':
                return x if pol == prot else None
            return x

        def ex(x, t, T, rv):
            if prot:
                R.check(T.mem(F(node, 'type')) not in (None, PROTECTED), f, t.where(), 'the pointer stays protected', trace=T.trace())
                R.check(T.mem(F(CUR, 'stack')) == ('sym', 'OLD'), f, t.where(),
                        'the next older pointer is not the newest one of the block', trace=T.trace())
            else:
                R.check(T.mem(F(CUR, 'stack')) in (None, ('sym', 'TOP')), f, t.where(), 'a pointer that is not protected changes the list', trace=T.trace())
        track(f, ch, {TLS: CUR, F(CUR, 'stack'): ('sym', 'TOP'), F(node, 'next'): ('sym', 'OLD'), F(node, 'type'): PROTECTED if prot else ('int', -1)},
              edge=edge, exit=ex, x0='', here={CUR, node}).run()


def caught(m, R, ch):
    R.cur = 'caught'
    fn = m.fn('try_caught')
    R.saw(fn)
    # x = (results of comparisons with the name asked for, outcome)

    def step(x, i, T):
        if name(i) == 'str_is':
            a = [T.ev(o) for o in i.ops]
            R.check(('arg', 0) in a, fn, i.where(), 'the comparison is not with the name asked for', trace=T.trace())
            R.check(pend in a, fn, i.where(), 'the name asked for is not compared with the exception in flight', trace=T.trace())
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] == 'state':
                R.check(x is True and v == ('int', CATCH), fn, i.where(), 'the exception is marked taken although the name is another', trace=T.trace())
                return 'marked'
        return x

    def edge(x, key, pol, i, T):
        if key[0] == 'eq' and key[1][0] == 'call' and key[1][1] == 'str_is' and key[2] == ('int', 0):
            return not pol
        if key[0] == 'eq' and key[1] == pend and key[2] == ('int', 0) and pol:
            return None
        return x

    def ex(x, t, T, rv):
        if x == 'marked':
            R.check(rv == ('int', 1) or rv[0] == 'call' and rv[1] == 'str_is', fn, t.where(), 'the answer is no for an exception marked taken', trace=T.trace())
        else:
            R.check(x is False, fn, t.where(), 'the name matches but the exception is not marked taken', trace=T.trace())
            R.check(rv == ('int', 0) or rv[0] == 'call' and rv[1] == 'str_is', fn, t.where(), 'the answer is yes for another name', trace=T.trace())
    for pend, init in ((('sym', 'MESSAGE'), {F(CUR, '_panic'): ('sym', 'MESSAGE'), F(CUR, 'ex'): ('sym', 'NAME')}),
                       (('sym', 'NAME'), {F(CUR, '_panic'): 0, F(CUR, 'ex'): ('sym', 'NAME')})):
        track(fn, ch, {TLS: CUR, **init}, step=step, edge=edge, exit=ex, x0='start', here={CUR}).run()


def tasks(m, R, ch):
    R.cur = 'task'
    k = 0
    for fn in funcs(m):
        sw = swaps(fn)
        if not sw:
            continue
        k += 1
        R.saw(fn)

        # x = (values of the chain read before the switch, switched)
        def step(x, i, T):
            if i.op == 'load' and T.ev(i.ops[0]) == TLS and not x[1] and T.mem(TLS) is None:
                return (x[0] | {i.dest}, x[1])
            if i in sw:
                return (x[0], True)
            return x

        def ex(x, t, T, rv):
            if x[1]:
                v = T.mem(TLS)
                own = [('ld', TLS, d) for d in x[0]]
                R.check(v is not None and (v in own or any(T.holds(('cmp', 'eq', v, o)) for o in own)), fn, t.where(),
                        'after the switch the innermost block is that of another task', trace=T.trace())
        Track(fn, step=step, exit=ex, x0=(frozenset(), False),
              keep=lambda n, a: n is not None and ch.keeps(n, a)).run()
    R.floor(k, 1, 'task switches')


TEXT = [
    ('enter', 'try_start makes the block the innermost one, remembers the one it was before, and returns the block\'s own place to come back to'),
    ('leave', 'try_next moves on one stage at a time; when the block is done the one around it is the innermost again, and only an '
           'exception that was not taken is thrown again, as it was'),
    ('catch', 'a catch part runs only for the exception in flight, at its stage, and when its name matches; it alone marks the exception taken'),
    ('finally', 'a finally part runs once, at its stage, with the block around it the innermost'),
    ('chain', 'nothing else changes which block is the innermost'),
    ('throw', 'what is thrown is recorded in the innermost block before anything unwinds; with no block around, or while unwinding, the '
           'program ends; otherwise control goes to that block with the exception pending, unwinding finished and the signal mask put back'),
    ('protected', 'unwinding releases each protected pointer that is not NULL once, newest first, up to one that is not protected (any more); a pointer is protected as the newest of the innermost block, '
                  'and no longer protected it leaves the next older one the newest'),
    ('caught', 'caught() answers whether the name is that of the exception and only then marks it taken'),
    ('task', 'a task that gives the thread away finds its own innermost block again when it gets it back'),
]
RULES = [exceptions]

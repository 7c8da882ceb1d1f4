"""Path-sensitive typestate/dataflow over the parsed IR.

A rule is an automaton stepped over the instructions of one (flattened) function;
the explorer walks the product of the control-flow graph, the automaton's state and
a small set of branch facts (so that a test repeated later, or a flag set on one arm
and tested afterwards, is not taken both ways).  It is a fixpoint over finitely many
(block, state, facts) triples: no values are computed and no solver is involved.
"""
from irlib import AnalysisBroken, CAST

# ------------------------------------------------------------ expressions


def S(e):
    """canonical form without the identity of loads/calls: two reads of one place are equal"""
    k = e[0]
    if k == 'load':
        return ('load', S(e[1]))
    if k == 'fld':
        return ('fld', S(e[1]), e[2], e[3])
    if k == 'idx':
        return ('idx', S(e[1]), S(e[2]))
    if k == 'bin':
        a, b = S(e[2]), S(e[3])
        op = e[1]
        if op in ('add', 'mul', 'and', 'or', 'xor') and _key(b) < _key(a):
            a, b = b, a
        if op == 'sub' and b[0] == 'int':
            op, b = 'add', ('int', -b[1])
            if _key(b) < _key(a):
                a, b = b, a
        return ('bin', op, a, b)
    if k == 'cmp':
        return ('cmp', e[1], S(e[2]), S(e[3]))
    if k == 'select':
        return ('select', S(e[1]), S(e[2]), S(e[3]))
    if k == 'xv':
        return ('xv', S(e[1]), e[2])
    if k == 'call' and e[1] in STABLE:
        return ('call', e[1], '')
    return e


#: calls without arguments that yield the same value throughout a function
STABLE = {'__thrd', 'events_signals', '__errno_location'}


def _key(e):
    return (e[0] == 'int', repr(e))


def show(e, fn=None):
    k = e[0]
    if k == 'arg':
        return fn.args[e[1]] if fn is not None and e[1] < len(fn.args) else 'arg%d' % e[1]
    if k == 'int':
        return str(e[1])
    if k == 'g':
        return e[1]
    if k == 'load':
        return show(e[1], fn) if e[1][0] in ('fld', 'idx', 'g') else '*' + show(e[1], fn)
    if k == 'fld':
        return show(e[1], fn) + ('->' if e[1][0] != 'fld' else '.') + e[3]
    if k == 'idx':
        return '%s[%s]' % (show(e[1], fn), show(e[2], fn))
    if k == 'bin':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'cmp':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'call':
        return '%s()' % (e[1] or '(*indirect)')
    if k in ('phi', 'alloca', 'ssa'):
        return e[1]
    if k == 'xv':
        return show(e[1], fn) + str(list(e[2]))
    return str(e)


def sub_expr(e, f):
    """rebuild e with f applied bottom-up; f returns a replacement or None"""
    k = e[0]
    if k == 'load':
        r = ('load', sub_expr(e[1], f)) + tuple(e[2:])
    elif k == 'fld':
        r = ('fld', sub_expr(e[1], f), e[2], e[3])
    elif k == 'idx':
        r = ('idx', sub_expr(e[1], f), sub_expr(e[2], f)) + tuple(e[3:])
    elif k == 'bin':
        r = ('bin', e[1], sub_expr(e[2], f), sub_expr(e[3], f))
    elif k == 'cmp':
        r = ('cmp', e[1], sub_expr(e[2], f), sub_expr(e[3], f))
    elif k == 'select':
        r = ('select', sub_expr(e[1], f), sub_expr(e[2], f), sub_expr(e[3], f))
    elif k == 'xv':
        r = ('xv', sub_expr(e[1], f), e[2])
    else:
        r = e
    x = f(r)
    return r if x is None else x


def walk(e):
    yield e
    for c in e[1:]:
        if isinstance(c, tuple) and c and isinstance(c[0], str):
            yield from walk(c)


def mentions(e, pred):
    return any(pred(x) for x in walk(e))


def fields_of(e):
    return {(x[2], x[3]) for x in walk(e) if x[0] == 'fld'}


def lin(e):
    """linear form: ({term: coef}, const)"""
    k = e[0]
    if k == 'int':
        return {}, e[1]
    if k == 'bin' and e[1] in ('add', 'sub'):
        a, ca = lin(e[2])
        b, cb = lin(e[3])
        s = 1 if e[1] == 'add' else -1
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + s * c
            if r[t] == 0:
                del r[t]
        return r, ca + s * cb
    if k == 'bin' and e[1] == 'mul':
        a, ca = lin(e[2])
        b, cb = lin(e[3])
        if not a:
            return {t: c * ca for t, c in b.items() if c * ca}, ca * cb
        if not b:
            return {t: c * cb for t, c in a.items() if c * cb}, ca * cb
    if k == 'bin' and e[1] == 'shl' and e[3][0] == 'int':
        a, ca = lin(e[2])
        f = 1 << e[3][1]
        return {t: c * f for t, c in a.items()}, ca * f
    return {S(e): 1}, 0


def lin_eq(a, b):
    x, y = lin(a), lin(b)
    return x == y


# ------------------------------------------------------------- conditions
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def is_bool(e):
    return e[0] == 'cmp' or (e[0] == 'bin' and e[1] in ('xor', 'and', 'or') and is_bool(e[2]) and is_bool(e[3])) \
        or (e[0] == 'xv' and e[1][0] == 'cas')


def literal(e, pol=True):
    """branch condition -> (key, polarity); key is ('eq',a,b) or ('lt',sign,a,b); or const bool"""
    k = e[0]
    if k == 'int':
        return (bool(e[1] & 1) == pol), None
    if k == 'bin' and e[1] == 'xor' and e[3] in (('int', 1), ('int', -1)):
        return literal(e[2], not pol)
    if k == 'bin' and e[1] == 'and' and e[3] == ('int', 1) and is_bool(e[2]):
        return literal(e[2], pol)
    if k != 'cmp':
        return ('eq', e, ('int', 0)), not pol
    pred, a, b = e[1], e[2], e[3]
    if a[0] == 'int' and b[0] != 'int':
        a, b, pred = b, a, SWAP[pred]
    if pred in ('ule', 'ugt') and b == ('int', -1):
        return (pol if pred == 'ule' else not pol), None       # nothing exceeds the largest value
    if pred in ('ne', 'sge', 'sgt', 'uge', 'ugt') and True:
        if pred == 'ne':
            pred, pol = 'eq', not pol
        elif pred in ('sge', 'uge'):
            pred, pol = NEG[pred], not pol
        else:  # gt
            if b[0] == 'int':
                pred, b, pol = pred[0] + 'lt', ('int', b[1] + 1), not pol
            else:
                pred, a, b = SWAP[pred], b, a
    if pred in ('sle', 'ule'):
        if b[0] == 'int':
            pred, b = pred[0] + 'lt', ('int', b[1] + 1)
        else:
            # a<=b  ==  !(b<a)
            pred, a, b, pol = pred[0] + 'lt', b, a, not pol
    if pred == 'eq':
        if a[0] == 'int' and b[0] == 'int':
            return ((a[1] == b[1]) == pol), None
        if b in (('int', 0),) and is_bool(a):
            return literal(a, not pol)
        if b == ('int', 1) and is_bool(a):
            return literal(a, pol)
        if a == b:
            return pol, None
        if b[0] == 'int' and a[0] == 'select' and len(a) == 4 and a[2][0] == a[3][0] == 'int' and a[2] != a[3]:
            if b in (a[2], a[3]):           # a condition kept as one of two numbers
                return literal(a[1], pol == (b == a[2]))
            return not pol, None
        if b[0] != 'int' and _key(b) < _key(a):
            a, b = b, a
        # move constants: x + c == d
        if b[0] == 'int' and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'int':
            b = ('int', b[1] - a[3][1])
            a = a[2]
        return ('eq', a, b), pol
    if a[0] == 'int' and b[0] == 'int':
        x, y = a[1], b[1]
        if pred[0] == 'u':
            x &= (1 << 64) - 1
            y &= (1 << 64) - 1
        return ((x < y) == pol), None
    if pred == 'ult' and b == ('int', 1):
        return ('eq', a, ('int', 0)), pol
    if pred == 'ult' and b == ('int', 0):
        return (not pol), None
    return ('lt', pred[0], a, b), pol


def implied(facts, key):
    """truth of literal key under facts (dict key->bool), or None"""
    if key in facts:
        return facts[key]
    if key[0] == 'eq' and key[2][0] == 'int':
        x, c = key[1], key[2][1]
        for k, v in facts.items():
            if k[0] == 'eq' and k[1] == x and k[2][0] == 'int' and v and k[2][1] != c:
                return False
            if k[0] == 'lt' and k[1] == 's' and k[2] == x and k[3][0] == 'int':
                if v and c >= k[3][1]:
                    return False
                if not v and c < k[3][1]:
                    return False
        return None
    if key[0] == 'lt' and key[3][0] == 'int' and key[1] == 's':
        x, c = key[2], key[3][1]
        for k, v in facts.items():
            if k[0] == 'eq' and k[1] == x and k[2][0] == 'int' and v:
                return k[2][1] < c
            if k[0] == 'lt' and k[1] == 's' and k[2] == x and k[3][0] == 'int':
                d = k[3][1]
                if v and d <= c:
                    return True
                if not v and d >= c:
                    return False
        return None
    return None


NORETURN = {'abort', 'exit', '_exit', 'longjmp', '__longjmp_chk', 'siglongjmp', 'pthread_exit',
            '__assert_fail', 'ex_throw', 'ex_terminate', '_longjmp', 'ex_assert', 'panicking'}
PURE = {'strlen', 'strcmp', 'strncmp', 'memcmp', '__errno_location', 'strchr', 'strstr', 'pthread_self', 'getpid',
        'llvm.stacksave', 'llvm.stacksave.p0', 'llvm.stackrestore', 'llvm.stackrestore.p0', 'llvm.expect.i64',
        'llvm.objectsize.i64.p0', 'isalnum', 'isxdigit', 'toupper', 'tolower', '__ctype_b_loc', 'time', 'clock_gettime',
        '__thrd', 'is_empty', 'is_data', 'data_type', 'is_ptr_usable', 'events_is_active', 'data_equal', 'is_type', 'is_str_eq',
        'is_str_in', 'str_is', 'str_has', 'str_is_empty', 'array_size', 'socket2fd', 'fd2socket',
        'events_get_sockaddr', 'os_geterror', 'atomic_spinlock_lock_', 'is_promise', 'is_null', 'is_array', 'is_tuple'}


class Walker:
    """Explore (block, automaton state, facts) of one function."""

    def __init__(self, fn, step, edge=None, exit=None, noreturn=(), pure=(), limit=400000, facts=True,
                 keep_fields=None, init_facts=(), all_phis=False, on_phi=None):
        self.fn = fn.ensure()
        self.step = step          # step(state, ins, w) -> state | None(dead) | list of states
        self.edge = edge          # edge(state, key, pol, ins, w) -> state | None
        self.exit = exit          # exit(state, ins, w)
        self.noreturn = NORETURN | set(noreturn)
        self.pure = PURE | set(pure)
        self.limit = limit
        self.use_facts = facts
        self.keep = keep_fields or (lambda fl: False)
        self.init_facts = tuple(init_facts)
        self.all_phis = all_phis
        self.on_phi = on_phi      # on_phi(state, phis, from, binds, w) -> state
        self._prep()

    def _prep(self):
        fn = self.fn
        # conditions tested at two places (worth remembering), phis feeding conditions
        cnt = {}
        self.condphis = set()
        seen = set()

        def grow(e):
            for x in walk(e):
                if x[0] == 'phi' and x[1] not in seen:
                    seen.add(x[1])
                    self.condphis.add(x[1])
                    d = fn.defs[x[1]]
                    for v, _ in d.attr['inc']:
                        grow(fn.ex(v))
        for b in fn.order:
            t = b.term
            if t.op in ('br', 'switch') and t.ops:
                e = fn.ex(t.ops[0])
                grow(e)
                k, _ = literal(S(e)) if t.op == 'br' else (('sw', S(e)), None)
                if not isinstance(k, bool):
                    x = k[1] if k[0] != 'lt' else k[2]
                    cnt[x] = cnt.get(x, 0) + 1
            if t.op == 'ret' and t.ops:
                grow(fn.ex(t.ops[0]))
        # select conditions and comparisons not in branches
        for i in fn.instrs():
            if i.op == 'icmp':
                k, _ = literal(S(fn.ex(('ssa', i.dest))))
                if not isinstance(k, bool):
                    x = k[1] if k[0] != 'lt' else k[2]
                    cnt[x] = cnt.get(x, 0) + 1
        # a loop's condition on a value some round leaves unchanged is tested again next round
        def selfphi(d):
            seen, st = set(), [v for v, _ in fn.defs[d].attr['inc']]
            while st:
                e = fn.ex(st.pop())
                if e[0] != 'phi' or e[1] in seen:
                    continue
                if e[1] == d:
                    return True
                seen.add(e[1])
                st += [v for v, _ in fn.defs[e[1]].attr['inc']]
            return False
        sp = {i.dest for i in fn.instrs() if i.op == 'phi' and selfphi(i.dest)}
        self.multi = {k for k, c in cnt.items() if c >= 2 or mentions(k, lambda x: x[0] == 'phi' and x[1] in sp)}
        self.condphis |= sp
        self.selfphis = sp
        self.shared = {S(fn.ex(i.ops[0])) for i in fn.instrs()
                       if i.op == 'load' and (i.attr.get('order') or i.attr.get('volatile'))}
        if self.shared:
            self.multi = {x for x in self.multi
                          if not mentions(x, lambda y: y[0] == 'load' and y[1] in self.shared)}
        if self.all_phis:
            for i in fn.instrs():
                if i.op == 'phi':
                    self.condphis.add(i.dest)

    # facts: frozenset of (key, bool); binds: frozenset of (phi, expr)
    def subst(self, e, binds):
        if not binds:
            return e
        b = dict(binds)
        return sub_expr(e, lambda x: b.get(x[1]) if x[0] == 'phi' else None)

    def val(self, v, binds=None):
        """canonical expression of an operand under the current path"""
        e = self.fn.ex(v)
        return S(self.subst(e, self.binds if binds is None else binds))

    def rawval(self, v):
        """as val, keeping which load instance each value comes from"""
        return self.subst(self.fn.ex(v), self.binds)

    def run(self, state, block=None, idx=0, facts=()):
        assert state is not None, 'None is the dead state'
        fn = self.fn
        start = block or fn.entry.name
        work = [(start, idx, state, frozenset(facts) | frozenset(self.init_facts), frozenset(), None)]
        seen = set()
        n = 0
        self.parent = {}
        while work:
            node = work.pop()
            bn, ix, st, facts, binds, par = node
            key = (bn, ix, st, facts, binds)
            if key in seen:
                continue
            seen.add(key)
            self.parent[key] = par
            n += 1
            if n > self.limit:
                raise AnalysisBroken('exploration limit reached in %s' % fn.name)
            b = fn.blocks[bn]
            states = [(st, facts)]
            dead = False
            for i in b.ins[ix:]:
                if i.op == 'phi':
                    continue
                nxt = []
                for s, fc in states:
                    self.facts = fc
                    self.binds = binds
                    self.node = key
                    if i.op in ('br', 'switch', 'ret', 'unreachable'):
                        nxt.append((s, fc))
                        continue
                    r = self.step(s, i, self)
                    if r is None:
                        continue
                    if not isinstance(r, list):
                        r = [r]
                    fc2 = self._kill(fc, i) if fc else fc
                    for x in r:
                        if x is not None:
                            nxt.append((x, fc2))
                states = list(dict.fromkeys(nxt))
                if not states:
                    break
                if i.op == 'call' and i.attr['name'] in self.noreturn:
                    states = []
                    break
            if not states:
                continue
            t = b.term
            for s, fc in states:
                self.facts = fc
                self.binds = binds
                self.node = key
                if t.op == 'ret':
                    if self.exit:
                        self.exit(s, t, self)
                    continue
                if t.op == 'unreachable':
                    continue
                if t.op == 'br' and not t.ops:
                    self._push(work, bn, t.attr['targets'][0], s, fc, binds, key)
                    continue
                if t.op == 'br':
                    e0 = fn.ex(t.ops[0])
                    e = S(self.subst(e0, binds))
                    again = mentions(e0, lambda x: x[0] == 'phi' and x[1] in self.selfphis)
                    for tgt, pol in ((t.attr['targets'][0], True), (t.attr['targets'][1], False)):
                        k, p = literal(e, pol)
                        if isinstance(k, bool):
                            if not k:
                                continue
                            self._push(work, bn, tgt, s, fc, binds, key)
                            continue
                        self._take(work, bn, tgt, s, fc, binds, k, p, t, key, again)
                    continue
                if t.op == 'switch':
                    e = S(self.subst(fn.ex(t.ops[0]), binds))
                    cases = t.attr['cases']
                    if e[0] == 'int':
                        tgt = t.attr['default']
                        for c, l in cases:
                            if c == e[1]:
                                tgt = l
                        self._push(work, bn, tgt, s, fc, binds, key)
                        continue
                    for c, l in cases:
                        self._take(work, bn, l, s, fc, binds, ('eq', e, ('int', c)), True, t, key)
                    # default: none of the cases
                    fd = dict(fc)
                    ok = True
                    for c, l in cases:
                        if implied(fd, ('eq', e, ('int', c))) is True:
                            ok = False
                    if ok:
                        s2 = s
                        for c, l in cases:
                            if self.edge:
                                s2 = self.edge(s2, ('eq', e, ('int', c)), False, t, self)
                                if s2 is None:
                                    break
                        if s2 is not None:
                            self._push(work, bn, t.attr['default'], s2, fc, binds, key)
                    continue
                raise AnalysisBroken('unhandled terminator %s in %s' % (t.op, fn.name))
        return n

    def _take(self, work, bn, tgt, s, fc, binds, k, p, t, key, again=False):
        if self.use_facts:
            v = implied(dict(fc), k)
            if v is not None and v != p:
                return
        s2 = s
        if self.edge:
            s2 = self.edge(s, k, p, t, self)
            if s2 is None:
                return
        if self.use_facts:
            x = k[1] if k[0] != 'lt' else k[2]
            if (again or x in self.multi or k in self.multi) and (k, p) not in fc:
                fc = fc | {(k, p)}
        self._push(work, bn, tgt, s2, fc, binds, key)

    def _push(self, work, frm, to, st, fc, binds, key):
        fn = self.fn
        nb = None
        ph = []
        for i in fn.blocks[to].ins:
            if i.op != 'phi':
                break
            ph.append(i)
        if ph and self.on_phi:
            st = self.on_phi(st, ph, frm, binds, self)
        if ph:
            bd = dict(binds)
            new = {}
            stale = set()
            same = set()
            for i in ph:
                stale.add(i.dest)
                if i.dest not in self.condphis:
                    continue
                for v, b in i.attr['inc']:
                    if b == frm:
                        e = self.subst(fn.ex(v), binds)
                        if e == ('phi', i.dest):
                            same.add(i.dest)
                        elif e[0] == 'phi':
                            new[i.dest] = e
                        elif e[0] in ('int', 'g', 'call', 'arg', 'alloca', 'cmp', 'load', 'xv') or \
                                (self.all_phis and not self._back(frm, to)):
                            if not mentions(e, lambda x: x[0] == 'phi') and len(repr(e)) < 400:
                                new[i.dest] = e
                        break
            stale -= same
            # an alias of a phi that changes now is lost
            new = {k: v for k, v in new.items() if not (v[0] == 'phi' and v[1] in stale)}
            for d in stale:
                bd.pop(d, None)
            # a bound expression that mentions a redefined phi is stale
            bd = {k: v for k, v in bd.items() if not mentions(v, lambda x: x[0] == 'phi' and x[1] in stale)}
            bd.update(new)
            binds = frozenset(bd.items())
            # facts about the redefined phis die
            fc = frozenset((k, v) for k, v in fc if not mentions(k, lambda x: x[0] == 'phi' and x[1] in stale))
        # facts about values defined in the block being (re-)entered die: new dynamic instance
        if fc:
            defs = self._defs(to)
            fc = frozenset((k, v) for k, v in fc
                           if not mentions(k, lambda x: x[0] in ('call', 'rmw', 'cas', 'ssa') and x[-1] in defs))
        if binds:
            defs = self._defs(to)
            binds = frozenset((k, v) for k, v in binds
                              if not mentions(v, lambda x: x[0] in ('call', 'rmw', 'cas', 'ssa', 'load') and x[-1] in defs))
        work.append((to, 0, st, fc, binds, key))

    def _back(self, frm, to):
        d = getattr(self.fn, '_dom', None)
        if d is None:
            d = self.fn._dom = dominators(self.fn)
        return to in d[frm]

    def _defs(self, bn):
        b = self.fn.blocks[bn]
        d = getattr(b, '_defs', None)
        if d is None:
            d = b._defs = {i.dest for i in b.ins if i.dest}
        return d

    def _kill(self, fc, i):
        """facts that mention memory this instruction may change die"""
        if i.op == 'store' or i.op in ('atomicrmw', 'cmpxchg'):
            a = S(self.fn.ex(i.ops[1] if i.op == 'store' else i.ops[0]))
            tail = a[2:4] if a[0] == 'fld' else None

            def hit(x):
                if x[0] != 'load':
                    return False
                y = x[1]
                if y == a:
                    return True
                if a[0] == 'fld' and y[0] == 'fld':
                    return y[2:4] == tail
                if a[0] == 'alloca' or y[0] == 'alloca':
                    return False
                if a[0] == 'g' and y[0] in ('fld', 'g', 'alloca'):
                    return y == a
                if y[0] == 'g':
                    return False
                return a[0] != 'fld' and y[0] != 'fld'
            return frozenset((k, v) for k, v in fc if not mentions(k, hit))
        if i.op == 'call':
            nm = i.attr['name']
            if nm in self.pure or (nm or '').startswith('llvm.'):
                return fc

            def hit2(x):
                if x[0] != 'load':
                    return False
                if x[1][0] == 'fld' and self.keep(x[1][2:4]):
                    return False
                return x[1][0] != 'alloca' or self._escapes(x[1][1])
            return frozenset((k, v) for k, v in fc if not mentions(k, hit2))
        return fc

    def _escapes(self, name):
        c = getattr(self.fn, '_esc', None)
        if c is None:
            c = self.fn._esc = {}
        if name in c:
            return c[name]
        r = False
        for i in self.fn.instrs():
            if i.op == 'call' and any(o == ('ssa', name) for o in i.ops):
                r = True
            if i.op == 'store' and i.ops[0] == ('ssa', name):
                r = True
            if i.op == 'getelementptr' and i.ops[0] == ('ssa', name):
                r = True
        c[name] = r
        return r

    def trace(self):
        """branch lines on the path to the current node, for the report"""
        out = []
        k = self.node
        n = 0
        while k is not None and n < 400:
            out.append(k[0])
            k = self.parent.get(k)
            n += 1
        out.reverse()
        lines = []
        for bn in out:
            for i in self.fn.blocks[bn].ins:
                if i.dbg is not None:
                    w = i.where()
                    if not w.endswith(':0') and (not lines or lines[-1] != w):
                        lines.append(w)
                        break
        return lines[-14:]


# -------------------------------------------------------- common queries

def call_args(fn, ins, w=None):
    return [S(fn.ex(o)) for o in ins.ops]


def store_addr(fn, i):
    return S(fn.ex(i.ops[1]))


def is_field(a, struct, field):
    return a[0] == 'fld' and a[2] == struct and a[3] == field


def dominators(fn):
    fn.ensure()
    names = [b.name for b in fn.order]
    dom = {n: set(names) for n in names}
    dom[fn.entry.name] = {fn.entry.name}
    ch = True
    while ch:
        ch = False
        for n in names:
            if n == fn.entry.name:
                continue
            ps = fn.blocks[n].pred
            nd = set.intersection(*[dom[p] for p in ps]) if ps else set()
            nd = nd | {n}
            if nd != dom[n]:
                dom[n] = nd
                ch = True
    return dom


def reachable_fns(mod, roots, stop=()):
    seen = set()
    wk = list(roots)
    while wk:
        n = wk.pop()
        if n in seen or n in stop:
            continue
        seen.add(n)
        f = mod.fns.get(n)
        if not f:
            continue
        f.ensure()
        for i in f.instrs():
            if i.op == 'call' and i.attr['name']:
                wk.append(i.attr['name'])
    return seen


def must_precede(fn, is_a, is_b, noreturn=(), pure=(), reset=None, keep=None, init=False):
    """on every path from entry, an A instruction occurs before each B. yields offending (B, trace)"""
    bad = []
    cnt = [0]

    def step(s, i, w):
        if is_b(i, w):
            cnt[0] += 1
            if not s:
                bad.append((i, w.trace()))
        if is_a(i, w):
            return True
        if reset is not None and reset(i, w):
            return False
        return s
    Walker(fn, step, noreturn=noreturn, pure=pure, keep_fields=keep).run(init)
    return bad, cnt[0]


def must_follow(fn, is_a, is_b, noreturn=(), pure=(), exit_ok=None, keep=None):
    """after every A, every path to a return passes B. yields offending exits"""
    bad = []
    cnt = [0]

    def step(s, i, w):
        if is_b(i, w):
            return None2 if False else ()
        if is_a(i, w):
            cnt[0] += 1
            return (i.where(),)
        return s

    def ex(s, t, w):
        if s and not (exit_ok and exit_ok(t, w)):
            bad.append((s[0], t, w.trace()))
    Walker(fn, step, exit=ex, noreturn=noreturn, pure=pure, keep_fields=keep).run(())
    return bad, cnt[0]


# ------------------------------------------------------------ path summaries

def path_summaries(fn, classify, edge=None, noreturn=(), pure=(), limit=200000, keep=None, start=None):
    """every path of a (small) function as the ordered tuple of its classified events.

    classify(ins, w) -> tag | None; edge(key, pol, ins, w) -> tag | None.
    Each (tag) is recorded once per path and source instruction, so loops terminate.
    Returns [(events, return expression, w.trace())] with events = ((tag, instr), ...).
    """
    out = {}

    def step(s, i, w):
        t = classify(i, w)
        if t is None:
            return s
        if any(x[1] is i and x[0] == t for x in s):
            return s
        return s + ((t, i),)

    def edg(s, key, pol, i, w):
        t = edge(key, pol, i, w) if edge else None
        if t is None or any(x[1] is i and x[0] == t for x in s):
            return s
        return s + ((t, i),)

    def ex(s, t, w):
        r = w.rawval(t.ops[0]) if t.ops else None
        if (s, r) not in out:
            out[(s, r)] = w.trace()
    W = Walker(fn, step, edge=edg, exit=ex, noreturn=noreturn, pure=pure, limit=limit, keep_fields=keep,
               all_phis=True)
    W.run(())
    return [(s, r, tr) for (s, r), tr in out.items()]


def linr(e):
    """linear form that keeps the identity of each load"""
    k = e[0]
    if k == 'int':
        return {}, e[1]
    if k == 'bin' and e[1] in ('add', 'sub'):
        a, ca = linr(e[2])
        b, cb = linr(e[3])
        s = 1 if e[1] == 'add' else -1
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + s * c
            if r[t] == 0:
                del r[t]
        return r, ca + s * cb
    return {e: 1}, 0


def litlin(key):
    """('eq'|'lt', signedness, linear form of a-b)"""
    if key[0] == 'eq':
        a, b, sg = key[1], key[2], ''
    else:
        a, b, sg = key[2], key[3], key[1]
    x, cx = lin(a)
    y, cy = lin(b)
    r = dict(x)
    for t, c in y.items():
        r[t] = r.get(t, 0) - c
        if r[t] == 0:
            del r[t]
    return key[0], sg, r, cx - cy


def deref(e):
    """canonical address a load reads, or None"""
    return e[1] if e[0] == 'load' else None


def ldf(e, struct, field):
    """is e a load of struct.field?"""
    return e[0] == 'load' and is_field(e[1], struct, field)


def raw(fn, v):
    return fn.ex(v)

"""Path-sensitive value tracking: constants are propagated and folded at their declared widths, other values are
identified by the place and the instruction they come from, stores are remembered until something may overwrite
them.  A partition of the inputs (`init`: place -> constant, `args`: parameter -> constant) turns it into a
conditional constant propagation for that class of inputs.  Values that change from round to round of a loop are
never followed: a loop is analysed for an arbitrary round.  Nothing is executed and no solver is involved.
"""
import re
from irlib import AnalysisBroken, CAST
from flow import S, sub_expr, walk, mentions, literal, implied, NORETURN, PURE, STABLE, dominators, show

BINS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'}


def bits(t):
    m = re.match(r'^i(\d+)$', t or '')
    return int(m.group(1)) if m else 64


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if n > 1 and v >> (n - 1) else v


def ufold(v, n):
    return v & ((1 << n) - 1)


def foldbin(op, a, b, n):
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        if not 0 <= b < n:
            return None
        r = a << b
    elif op == 'lshr':
        if not 0 <= b < n:
            return None
        r = ufold(a, n) >> b
    elif op == 'ashr':
        if not 0 <= b < n:
            return None
        r = wrap(a, n) >> b
    elif op in ('udiv', 'urem'):
        a, b = ufold(a, n), ufold(b, n)
        if b == 0:
            return None
        r = a // b if op == 'udiv' else a % b
    elif op in ('sdiv', 'srem'):
        a, b = wrap(a, n), wrap(b, n)
        if b == 0:
            return None
        q = abs(a) // abs(b)
        q = -q if (a < 0) != (b < 0) else q
        r = q if op == 'sdiv' else a - q * b
    else:
        return None
    return wrap(r, n)


def affbin(op, a, b, n):
    """('aff', m, v, c) is m*v + c for an unknown v >= 0, with 0 <= c < m when v is still scaled"""
    if op in ('mul', 'add') and a[0] == 'int':
        a, b = b, a
    if a[0] != 'aff' or b[0] != 'int':
        return None
    _, m, v, c = a
    k = b[1]
    if op == 'add':
        return ('aff', m, v, c + k)
    if op == 'sub':
        return ('aff', m, v, c - k)
    if op == 'shl' and 0 <= k < 16:
        op, k = 'mul', 1 << k
    if op == 'mul' and k > 0:
        return ('aff', m * k, v, c * k)
    if c < 0:
        return None
    if op in ('lshr', 'ashr') and 0 <= k < 16:
        op, k = 'udiv', 1 << k
    if op == 'and' and k > 0 and k & (k + 1) == 0:
        op, k = 'urem', k + 1
    if op in ('udiv', 'sdiv') and k > 0 and m % k == 0:
        return ('aff', m // k, v, c // k)
    if op in ('urem', 'srem') and k > 0 and m % k == 0:
        return ('int', c % k)
    if op == 'and' and k < 0 and -k & (-k - 1) == 0 and m % -k == 0:
        return ('aff', m, v, c & k)
    return None


def foldcmp(p, a, b, n):
    if p in ('eq', 'ne'):
        return int((ufold(a, n) == ufold(b, n)) == (p == 'eq'))
    if p[0] == 'u':
        a, b = ufold(a, n), ufold(b, n)
    else:
        a, b = wrap(a, n), wrap(b, n)
    return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]])


class Track:
    def __init__(self, fn, step=None, edge=None, exit=None, x0=(), init=None, args=None, stable=(), keep=None, pure=(),
                 noreturn=(), limit=60000, stale=None, track_mem=None, back=None, mkeep=None, moved=None, about=None):
        self.fn = fn.ensure()
        self.ustep, self.uedge, self.uexit, self.ustale = step, edge, exit, stale
        self.mkeep = mkeep or (lambda i, a: False)      # what a block copy or fill leaves alone
        self.moved = moved or {}                        # name -> position of the operand whose contents the result gets
        self.about = about          # which facts are worth keeping apart
        self.uback = back           # back(x, header, again, T): a loop is entered / its next round begins
        self.x0 = x0
        self.init = init or (lambda a: None)
        self.argv = args or {}
        self.stable = set(stable)
        self.keep = keep or (lambda name, a: False)
        self.pure = PURE | set(pure)
        self.noreturn = NORETURN | set(noreturn)
        self.limit = limit
        self.track_mem = track_mem or (lambda a: True)
        self.esc = {}
        self._live()
        self._loops()

    # ---------------------------------------------------------------- preparation
    def _live(self):
        fn = self.fn

        def refs(v, out):
            if v[0] == 'ssa':
                out.add(v[1])
            elif v[0] in ('cgep', 'cbin'):
                for y in v[1:]:
                    if isinstance(y, tuple):
                        refs(y, out)
                    elif isinstance(y, list):
                        for z in y:
                            refs(z, out)
        use, dfn, outp = {}, {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    d.add(i.dest)
                    for v, p in i.attr['inc']:
                        refs(v, outp.setdefault(p, set()))
                    continue
                r = set()
                for o in i.ops:
                    if isinstance(o, tuple):
                        refs(o, r)
                c = i.attr.get('callee')
                if c is not None:
                    refs(c, r)
                u |= r - d
                if i.dest:
                    d.add(i.dest)
            use[b.name], dfn[b.name] = u, d
        live = {b.name: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                o = set(outp.get(b.name, ()))
                for t in b.succ:
                    o |= live[t]
                n = use[b.name] | (o - dfn[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        self.live = live

    def _loops(self):
        """blocks on a cycle, loop headers"""
        fn = self.fn
        dom = dominators(fn)
        self.headers = {b.name for b in fn.order if any(b.name in dom[p] for p in b.pred)}
        succ = {b.name: b.succ for b in fn.order}
        self.cyclic = set()
        for b in fn.order:
            st, seen = list(succ[b.name]), set()
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                st += succ[y]
            if b.name in seen:
                self.cyclic.add(b.name)
        self.home = {}              # header phi -> blocks of its loop
        for h in self.headers:
            body = Loop(fn, h).body
            for i in fn.blocks[h].ins:
                if i.op == 'phi':
                    self.home[i.dest] = body
        self.moving = {}            # header phis that are not a choice among fixed values
        for h in self.headers:
            for i in fn.blocks[h].ins:
                if i.op == 'phi':
                    vs = [fn.ex(v) for v, p in i.attr['inc'] if h in dom[p]]
                    self.moving[i.dest] = not all(v[0] == 'int' or v == ('phi', i.dest) or
                                                  v[0] == 'phi' and all(fn.ex(z)[0] == 'int' or fn.ex(z) == ('phi', i.dest)
                                                                        for z, _ in fn.defs[v[1]].attr['inc']) for v in vs)

    # ---------------------------------------------------------------- values
    def ev(self, v):
        """value of an operand here"""
        k = v[0]
        if k == 'ssa':
            n = v[1]
            if n in self.E:
                return self.E[n]
            if n in self.fn.args:
                j = self.fn.args.index(n)
                v = self.argv.get(j)
                return ('arg', j) if v is None else v if isinstance(v, tuple) else ('int', v)
            d = self.fn.defs.get(n)
            if d is not None and d.op == 'alloca':
                return ('alloca', n)
            return ('ssa', n)
        if k == 'cgep':
            return self._addr(self.fn._gep(v[1], [self.ev(o) for o in v[2]]))
        if k == 'cbin':
            return S(('bin', v[1], self.ev(v[2]), self.ev(v[3])))
        if k in ('undef', 'poison'):
            return ('undef',)
        return v

    def _addr(self, e):
        if e[0] == 'fld':
            return ('fld', self._addr(e[1]), None, e[3])
        if e[0] == 'idx':
            if e[2] == ('int', 0):
                return self._addr(e[1])
            b = self._addr(e[1])
            if b[0] == 'idx' and len(e) > 3 and len(b) > 3 and e[3] == b[3]:
                i, j = b[2], e[2]
                s = ('int', i[1] + j[1]) if i[0] == j[0] == 'int' else S(('bin', 'add', i, j))
                return b[1] if s == ('int', 0) else ('idx', b[1], s, e[3])
            return ('idx', b, e[2]) + tuple(e[3:])
        return e

    def mem(self, a):
        if a in self.K:
            return self.K[a]
        n = nodest(a)
        for b, v in self.K.items():
            if nodest(b) == n:
                return v
        return None

    def fact(self, key):
        if isinstance(key, bool):
            return key
        return implied(self.F, key)

    def null(self, v):
        """True / False / None: v is zero"""
        if v[0] == 'int':
            return v[1] == 0
        if v[0] in ('alloca', 'g'):
            return False
        return implied(self.F, ('eq', v, ('int', 0)))

    def holds(self, e):
        """truth of a condition value"""
        if e[0] == 'int':
            return bool(e[1] & 1)
        k, p = literal(e)
        if isinstance(k, bool):
            return k
        r = implied(self.F, k)
        return None if r is None else r == p

    def _value(self, i):
        op = i.op
        if op in CAST:
            a = self.ev(i.ops[0])
            if a[0] == 'int':
                n = bits(i.attr['from'])
                m = bits(i.ty)
                if op in ('zext', 'trunc', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                    v = ufold(a[1], n) if op == 'zext' else a[1]
                    return ('int', wrap(v, m))
                return ('ssa', i.dest)
            if a[0] == 'aff':
                return a if bits(i.ty) >= 32 else ('trunc', bits(i.ty), a)
            if op == 'trunc' and i.ty != 'i1':
                d = self.fn.defs.get(i.ops[0][1]) if i.ops[0][0] == 'ssa' else None
                if d is not None and d.op in ('zext', 'sext') and bits(d.attr['from']) <= bits(i.ty):
                    return a
                if a[0] == 'trunc':
                    return ('trunc', min(a[1], bits(i.ty)), a[2])
                if a[0] == 'cmp':
                    return a
                return ('trunc', bits(i.ty), a)
            return a
        if op == 'getelementptr':
            e = self.fn._gep(i.attr['st'], [self.ev(o) for o in i.ops])
            if e[0] == 'fld' and re.match(r'^f\d+$', e[3]):
                x = self.fn.ex(('ssa', i.dest))             # a nameless record is named by where it lies
                if x[0] == 'fld':
                    e = ('fld', e[1], e[2], x[3])
            return self._addr(e)
        if op in BINS:
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            if a[0] == 'int' and b[0] == 'int':
                r = foldbin(op, a[1], b[1], bits(i.ty))
                if r is not None:
                    return ('int', r)
            if 'aff' in (a[0], b[0]):
                r = affbin(op, a, b, bits(i.ty))
                if r is not None:
                    return r
            for x, y in ((a, b), (b, a)):
                if x == ('int', 0) and op in ('and', 'mul'):
                    return x
                if x == ('int', 0) and op in ('or', 'xor', 'add'):
                    return y
                if x == ('int', -1) and op == 'and' or x == ('int', 1) and op == 'mul':
                    return y
            if b == ('int', 0) and op in ('sub', 'shl', 'lshr', 'ashr'):
                return a
            return S(('bin', op, a, b))
        if op == 'icmp':
            a, b = self.ev(i.ops[0]), self.ev(i.ops[1])
            n = bits(i.attr['ty'])
            if a[0] == 'int' and b[0] == 'int':
                return ('int', foldcmp(i.attr['pred'], a[1], b[1], n))
            if i.attr['pred'] in ('eq', 'ne') and b == ('int', 0) and a[0] == 'bin' and a[1] == 'or' and \
                    any(y[0] == 'int' and y[1] for y in a[2:4]):
                return ('int', int(i.attr['pred'] == 'ne'))     # a bit is set
            e = ('cmp', i.attr['pred'], a, b)
            r = self.holds(e)
            return e if r is None else ('int', int(r))
        if op == 'fcmp':
            return ('cmp', i.attr['pred'], self.ev(i.ops[0]), self.ev(i.ops[1]))
        if op == 'call':
            n = i.attr['name']
            if n and n.startswith('llvm.threadlocal.address'):
                return self.ev(i.ops[0])
            return ('call', n, '' if n in STABLE else i.dest)
        if op == 'extractvalue':
            return ('xv', self.ev(i.ops[0]), tuple(i.attr['idx']))
        if op == 'cmpxchg':
            return ('cas', i.dest)
        if op == 'atomicrmw':
            return ('rmw', i.dest)
        if op == 'alloca':
            return ('alloca', i.dest)
        if op == 'freeze':
            return self.ev(i.ops[0])
        return ('ssa', i.dest)

    def _isstable(self, a):
        return a[0] == 'fld' and a[3] in self.stable or a[0] == 'g' and a[1] in self.stable

    # ---------------------------------------------------------------- transfer
    def _forget(self, pred):
        hit = lambda e: mentions(e, pred)
        self.E = {k: v for k, v in self.E.items() if not hit(v)}
        self.K = {k: v for k, v in self.K.items() if not hit(k) and not hit(v)}
        self.F = {k: v for k, v in self.F.items() if not hit(k)}
        if self.ustale:
            self.x = self.ustale(self.x, pred)

    def _killfacts(self, pred):
        """facts about plain memory reads that may have changed (stable places are never overwritten)"""
        self.F = {k: v for k, v in self.F.items() if not mentions(k, lambda y: y[0] == 'load' and pred(y[1]))}

    def _store(self, a, v):
        K = {}
        ra = root(a)
        for b, w in self.K.items():
            if b == a:
                continue
            if may_alias(a, b, ra):
                continue
            K[b] = w
        if self.track_mem(a):
            K[a] = v
        self.K = K

    def _escaped(self, nm):
        if nm not in self.esc:
            r = False
            fn = self.fn
            der, grew = {nm}, True
            while grew:
                grew = False
                for i in fn.instrs():
                    if i.op in ('getelementptr', 'bitcast', 'phi', 'select') and i.dest not in der:
                        src = [v for v, _ in i.attr['inc']] if i.op == 'phi' else i.ops
                        if any(o[0] == 'ssa' and o[1] in der for o in src):
                            der.add(i.dest)
                            grew = True
            for i in fn.instrs():
                if i.op == 'call' and not (i.attr['name'] or '').startswith('llvm.') and \
                        any(o[0] == 'ssa' and o[1] in der for o in i.ops):
                    r = True
                if i.op == 'store' and i.ops[0][0] == 'ssa' and i.ops[0][1] in der:
                    r = True
            self.esc[nm] = r
        return self.esc[nm]

    def _call(self, i):
        n = i.attr['name']
        if n in self.moved:
            o, r = self.ev(i.ops[self.moved[n]]), ('call', n, i.dest)
            put = lambda e: sub_expr(e, lambda y: r if y == o else None)
            self.K = {put(a): v for a, v in self.K.items()}
            return
        if n in self.pure:
            return
        if n and n.startswith('llvm.'):
            if n.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                a = self.ev(i.ops[0])
                ra = root(a)
                z = self.ev(i.ops[1]) if n.startswith('llvm.memset') else None
                K = {}
                sret = ra[0] == 'arg' and self.fn.args[ra[1]] == 'agg.result'     # room for the result: nobody else's
                for b, w in self.K.items():
                    if (root(b) == ra or not distinct(ra, root(b)) and not sret) and not self.mkeep(i, b):
                        continue
                    K[b] = w
                if z == ('int', 0):
                    K[('zero', ra)] = ('int', 0)
                self.K = K
            return
        self.K = {a: v for a, v in self.K.items()
                  if self.keep(n, a) or (root(a)[0] == 'alloca' and not self._escaped(root(a)[1]))}
        self._killfacts(lambda a: not self._isstable(a))

    def _do(self, i):
        """abstract effect of one instruction; yields alternatives (for a select)"""
        op = i.op
        if i.dest and i.blk.name in self.cyclic and op in ('load', 'call', 'cmpxchg', 'atomicrmw'):
            d = i.dest
            self._forget(lambda y: y[0] in ('ld', 'call', 'cas', 'rmw', 'ssa') and y[-1] == d)
        if op == 'load':
            a = self.ev(i.ops[0])
            v = None
            if i.attr.get('order') and not self._isstable(a):
                v = ('ld', a, i.dest)
            elif a in self.K:
                v = self.K[a]
            else:
                c = self.init(a)
                if c is not None:
                    v = c if isinstance(c, tuple) else ('int', c)
                elif self._isstable(a):
                    v = ('load', a)
                elif ('zero', root(a)) in self.K and root(a)[0] == 'alloca':
                    v = ('int', 0)
                else:
                    v = ('ld', a, i.dest)
                    self.K[a] = v
            self.E[i.dest] = v
        elif op == 'store':
            a = self.ev(i.ops[1])
            v = self.ev(i.ops[0])
            if v[0] == 'int':
                v = ('int', wrap(v[1], bits(i.attr['ty'])))
            self._store(a, v)
        elif op == 'atomicrmw':
            a = self.ev(i.ops[0])
            self.E[i.dest] = ('rmw', i.dest)
            self._store(a, ('new', i.dest))
            self.K.pop(a, None)
        elif op == 'cmpxchg':
            a = self.ev(i.ops[0])
            self.E[i.dest] = ('cas', i.dest)
            self._store(a, ('new', i.dest))
            self.K.pop(a, None)
        elif op == 'call':
            self._call(i)
            if i.dest:
                self.E[i.dest] = self._value(i)
        elif i.dest:
            self.E[i.dest] = self._value(i)

    def _assume(self, e, want, i):
        """the condition value e is want: None if that cannot be"""
        if e[0] == 'int':
            return bool(e[1] & 1) == want
        k, p = literal(e, want)
        if isinstance(k, bool):
            return k
        v = implied(self.F, k)
        if v is not None and v != p:
            return False
        if self.uedge:
            x = self.uedge(self.x, k, p, i, self)
            if x is None:
                return False
            self.x = x
        if self.about is None or self.about(k):
            self.F[k] = p
        if k[0] == 'eq' and p and k[2][0] == 'int' and k[1][0] in ('ld', 'call', 'phi', 'arg'):
            pass
        return True

    def _save(self):
        return dict(self.E), dict(self.K), dict(self.F), self.x

    def _load(self, s):
        self.E, self.K, self.F, self.x = dict(s[0]), dict(s[1]), dict(s[2]), s[3]

    def run(self):
        fn = self.fn
        work = [(fn.entry.name, {}, {}, {}, self.x0, None)]
        seen = set()
        self.parent = {}
        n = 0
        while work:
            bn, E, K, F, x, par = work.pop()
            lv = self.live[bn]
            names = {i.dest for i in fn.blocks[bn].ins if i.op == 'phi'}
            E = {k: v for k, v in E.items() if k in lv or k in names}
            F = self._prune(bn, E, K, F, x)
            key = (bn, frozenset(E.items()), frozenset(K.items()), frozenset(F.items()), x)
            if key in seen:
                continue
            seen.add(key)
            self.parent[key] = par
            self.node = key
            n += 1
            if n > self.limit:
                raise AnalysisBroken('value tracking limit reached in %s' % fn.name)
            states = [(E, K, F, x)]
            for i in fn.blocks[bn].ins:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                nxt = []
                for s in states:
                    self._load(s)
                    if self.ustep:
                        r = self.ustep(self.x, i, self)
                        if r is None:
                            continue
                        self.x = r
                    if i.op == 'call' and i.attr['name'] in self.noreturn:
                        continue
                    if i.op == 'select':
                        c = self.ev(i.ops[0])
                        for want, o in ((True, i.ops[1]), (False, i.ops[2])):
                            self._load(s)
                            if self._assume(c, want, i):
                                self.E[i.dest] = self.ev(o)
                                nxt.append(self._save())
                        continue
                    self._do(i)
                    nxt.append(self._save())
                states = nxt
                if not states:
                    break
            t = fn.blocks[bn].term
            for s in states:
                self._load(s)
                if t.op == 'ret':
                    if self.uexit:
                        v = self.ev(t.ops[0]) if t.ops else None
                        self.uexit(self.x, t, self, v)
                elif t.op == 'br' and not t.ops:
                    self._push(work, bn, t.attr['targets'][0], key)
                elif t.op == 'br':
                    e = self.ev(t.ops[0])
                    for tgt, want in ((t.attr['targets'][0], True), (t.attr['targets'][1], False)):
                        self._load(s)
                        if self._assume(e, want, t):
                            self._push(work, bn, tgt, key)
                elif t.op == 'switch':
                    e = self.ev(t.ops[0])
                    ok = True
                    for c, l in t.attr['cases']:
                        self._load(s)
                        cc = ('cmp', 'eq', e, ('int', c)) if e[0] != 'int' else ('int', int(e[1] == c))
                        if self._assume(cc, True, t):
                            self._push(work, bn, l, key)
                    self._load(s)
                    for c, l in t.attr['cases']:
                        cc = ('cmp', 'eq', e, ('int', c)) if e[0] != 'int' else ('int', int(e[1] == c))
                        if not self._assume(cc, False, t):
                            ok = False
                            break
                    if ok:
                        self._push(work, bn, t.attr['default'], key)
        self.nodes = n
        return self

    def _prune(self, bn, E, K, F, x):
        """without what was known about counters of loops that were left and that nothing refers to any more"""
        home = self.home
        gone = {}
        for k in F:
            for y in walk(k):
                if y[0] == 'phi' and y[1] in home and bn not in home[y[1]]:
                    gone.setdefault(y[1], []).append(k)
        if not gone:
            return F
        used = set()
        for e in list(E.values()) + [z for kv in K.items() for z in kv]:
            if isinstance(e, tuple):
                used |= {y[1] for y in walk(e) if y[0] == 'phi'}
        xs = None
        drop = set()
        for d, ks in gone.items():
            if d in used:
                continue
            if xs is None:
                xs = repr(x)
            if repr(d) not in xs:
                drop |= set(ks)
        return {k: v for k, v in F.items() if k not in drop} if drop else F

    def _isback(self, frm, to):
        if not hasattr(self, '_dom'):
            self._dom = dominators(self.fn)
        return to in self._dom[frm]

    def _push(self, work, frm, to, key):
        fn = self.fn
        ph = [i for i in fn.blocks[to].ins if i.op == 'phi']
        vals = {}
        for i in ph:
            for v, b in i.attr['inc']:
                if b == frm:
                    vals[i.dest] = self.ev(v)
        if self.uback and to in self.headers:
            self.x = self.uback(self.x, to, self._isback(frm, to), self)
            if self.x is None:
                return
        if ph:
            if to in self.headers:
                names = set()
                for i in ph:
                    if vals.get(i.dest) != ('phi', i.dest):
                        names.add(i.dest)
                old = lambda y: y[0] == 'phi' and y[1] in names
                move = {}
                for d, v in vals.items():
                    if self.moving.get(d, True):
                        # what is known about the new value holds for the phi; comparisons with zero only
                        z = self.null(v) if not mentions(v, old) or v[0] != 'phi' else None
                        move[d] = z
                        vals[d] = ('phi', d)
                self._forget(old)
                for d, z in move.items():
                    if z is not None and d in names:
                        self.F[('eq', ('phi', d), ('int', 0))] = z
                vals = {d: v for d, v in vals.items() if v == ('phi', d) or not mentions(v, old)}
            for i in ph:
                self.E[i.dest] = vals.get(i.dest, ('phi', i.dest))
        work.append((to, self.E, self.K, self.F, self.x, key))

    def trace(self):
        out, k, n = [], self.node, 0
        while k is not None and n < 400:
            out.append(k[0])
            k = self.parent.get(k)
            n += 1
        out.reverse()
        lines = []
        for bn in out:
            for i in self.fn.blocks[bn].ins:
                if i.dbg is not None:
                    w = i.where()
                    if not w.endswith(':0') and (not lines or lines[-1] != w):
                        lines.append(w)
                        break
        return lines[-14:]


def root(a):
    while a[0] in ('fld', 'idx', 'zero'):
        a = a[1]
    return a


def distinct(r1, r2):
    """two different objects for certain"""
    if r1 == r2:
        return False
    for x, y in ((r1, r2), (r2, r1)):
        if x[0] == 'alloca' and y[0] in ('alloca', 'g', 'arg', 'ld', 'load', 'call'):
            return True
        if x[0] == 'g' and y[0] == 'g':
            return True
    return False


def may_alias(a, b, ra=None):
    ra = ra or root(a)
    rb = root(b)
    if b[0] == 'zero':
        return False
    if distinct(ra, rb):
        return False
    if a[0] == 'fld' and b[0] == 'fld':
        return a[3] == b[3]
    if a[0] == 'fld' or b[0] == 'fld':
        f, o = (a, b) if a[0] == 'fld' else (b, a)
        # a field against an element or a plain place
        if o[0] == 'idx':
            return root(f) == root(o) and False
        return o[0] not in ('g', 'alloca') and False
    if a[0] == 'idx' and b[0] == 'idx' and a[1] == b[1] and a[2][0] == b[2][0] == 'int':
        return a[2] == b[2]
    return True


def nodest(e):
    """value without the instruction it was read by"""
    k = e[0]
    if k == 'ld':
        return ('load', nodest(e[1]))
    if k in ('load', ):
        return ('load', nodest(e[1]))
    if k == 'fld':
        return ('fld', nodest(e[1]), None, e[3])
    if k == 'idx':
        return ('idx', nodest(e[1]), nodest(e[2]))
    if k in ('bin', 'cmp'):
        return S((k, e[1], nodest(e[2]), nodest(e[3])))
    if k == 'trunc':
        return ('trunc', e[1], nodest(e[2]))
    return e


class Flow:
    """Plain typestate propagation: one state x per path class, no memory, no facts; phis that choose among constants
    (or values of interest) are followed for as long as they are live, so the returned constant is known."""

    def __init__(self, fn, step, edge=None, exit=None, x0=(), noreturn=(), head=None):
        self.fn = fn.ensure()
        self.step, self.edge, self.exit, self.x0, self.head = step, edge, exit, x0, head
        self.noreturn = NORETURN | set(noreturn)

    def ev(self, v):
        if v[0] == 'ssa' and v[1] in self.E:
            return self.E[v[1]]
        return self.fn.ex(v)

    def trace(self):
        out, k = [], self.node
        while k is not None and len(out) < 400:
            out.append(k[0])
            k = self.parent.get(k)
        lines = []
        for bn in reversed(out):
            for i in self.fn.blocks[bn].ins:
                if i.dbg is not None and not i.where().endswith(':0'):
                    if not lines or lines[-1] != i.where():
                        lines.append(i.where())
                    break
        return lines[-14:]

    def run(self):
        fn = self.fn
        work = [(fn.entry.name, (), self.x0, None)]
        self.parent = {}
        seen = set()
        while work:
            bn, E, x, par = work.pop()
            key = (bn, E, x)
            if key in seen:
                continue
            if len(seen) > 60000:
                raise AnalysisBroken('typestate limit reached in %s' % fn.name)
            seen.add(key)
            self.parent[key] = par
            self.node = key
            self.E = dict(E)
            dead = False
            for i in fn.blocks[bn].ins:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                x = self.step(x, i, self)
                if x is None or i.op == 'call' and i.attr['name'] in self.noreturn:
                    dead = True
                    break
            if dead:
                continue
            t = fn.blocks[bn].term
            if t.op == 'ret':
                if self.exit:
                    self.exit(x, t, self, self.ev(t.ops[0]) if t.ops else None)
                continue
            if t.op == 'br' and t.ops:
                c = t.ops[0]
                e = self.ev(c)
                nxt = []
                for tgt, pol in zip(t.attr['targets'], (True, False)):
                    k, p = literal(S(self._sub(e)), pol)
                    if isinstance(k, bool):
                        if k:
                            nxt.append((tgt, x))
                        continue
                    y = self.edge(x, k, p, t, self) if self.edge else x
                    if y is not None:
                        nxt.append((tgt, y))
            elif t.op == 'switch':
                e = S(self._sub(self.ev(t.ops[0])))
                nxt = []
                neg = x
                for c, l in t.attr['cases']:
                    k, p = literal(('cmp', 'eq', e, ('int', c)))
                    if isinstance(k, bool):
                        if k:
                            nxt, neg = [(l, x)], None
                            break
                        continue
                    y = self.edge(x, k, p, t, self) if self.edge else x
                    if y is not None:
                        nxt.append((l, y))
                    if neg is not None and self.edge:
                        neg = self.edge(neg, k, not p, t, self)
                if neg is not None:
                    nxt.append((t.attr['default'], neg))
            else:
                nxt = [(l, x) for l in fn.blocks[bn].succ]
            for l, y in nxt:
                F = dict(self.E)
                for i in fn.blocks[l].ins:
                    if i.op != 'phi':
                        break
                    for v, p in i.attr['inc']:
                        if p == bn:
                            w = self.ev(v)
                            if w[0] == 'int':
                                F[i.dest] = w
                            else:
                                F.pop(i.dest, None)
                work.append((l, tuple(sorted(F.items())), y, key))
        return self

    def _sub(self, e):
        if not self.E:
            return e
        return sub_expr(e, lambda y: self.E.get(y[1]) if y[0] == 'phi' else None)


class Effects:
    """which record fields a function may write, itself or through what it calls (by field name)"""
    TOP = '*'

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def writes(self, name):
        if name in self.memo:
            return self.memo[name]
        out, seen, st = set(), set(), [name]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            if n is None:
                out.add(self.TOP)
                continue
            f = self.m.fns.get(n)
            if f is None:
                continue                # library calls reach our records only through pointers they are given
            f.ensure()
            for i in f.instrs():
                if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                    a = f.ex(i.ops[1 if i.op == 'store' else 0])
                    if a[0] == 'fld':
                        out.add(a[3])
                    elif a[0] not in ('alloca', 'g'):
                        b = a
                        while b[0] == 'idx':
                            b = b[1]
                        if b[0] == 'fld':
                            out.add(b[3])
                elif i.op == 'call':
                    c = i.attr['name']
                    if c is None and i.attr.get('callee', ('',))[0] == 'ssa':
                        st.append(None)
                    elif c:
                        st.append(c)
        self.memo[name] = out
        return out

    def keeps(self, name, a):
        """a call of name leaves the field at address a alone"""
        if name is None or a[0] != 'fld':
            return False
        w = self.writes(name)
        return self.TOP not in w and a[3] not in w


class Loop:
    """a loop whose header values change by a fixed amount per round"""

    def __init__(self, fn, header):
        self.fn, self.h = fn, header
        dom = dominators(fn)
        self.body = {header}
        st = [p for p in fn.blocks[header].pred if header in dom[p]]
        while st:
            b = st.pop()
            if b not in self.body:
                self.body.add(b)
                st += fn.blocks[b].pred
        self.iv = {}                    # phi -> (start expression, step)
        for i in fn.blocks[header].ins:
            if i.op != 'phi':
                break
            start, step = None, None
            ok = True
            for v, p in i.attr['inc']:
                e = fn.ex(v)
                if p in self.body:
                    d = self._delta(e, i.dest, 0)
                    if d is None or step is not None and step != d:
                        ok = False
                    step = d
                else:
                    if start is not None and S(start) != S(e):
                        ok = False
                    start = e
            if ok and start is not None and step is not None:
                self.iv[i.dest] = (start, step)

    def _delta(self, e, d, depth):
        """e - phi d as a constant number of elements / units"""
        if depth > 8:
            return None
        if e == ('phi', d):
            return 0
        if e[0] == 'bin' and e[1] in ('add', 'sub') and e[3][0] == 'int':
            r = self._delta(e[2], d, depth + 1)
            return None if r is None else r + (e[3][1] if e[1] == 'add' else -e[3][1])
        if e[0] == 'idx' and e[2][0] == 'int':
            r = self._delta(e[1], d, depth + 1)
            return None if r is None else r + e[2][1]
        if e[0] == 'phi' and e[1] in self.fn.defs and self.fn.defs[e[1]].blk.name in self.body:
            ds = {self._delta(self.fn.ex(v), d, depth + 1) for v, _ in self.fn.defs[e[1]].attr['inc']}
            return ds.pop() if len(ds) == 1 else None
        return None

    def inrounds(self, e):
        """linear form of e with every header value written as start + step * T; T is ('T',)"""
        def f(x):
            if x[0] == 'phi' and x[1] in self.iv:
                s, k = self.iv[x[1]]
                s = S(s)
                if k == 0:
                    return s
                return ('bin', 'add', s, ('bin', 'mul', ('T',), ('int', k)))
            if x[0] == 'idx':
                return ('bin', 'add', x[1], x[2])
            return None
        from flow import lin
        t, c = lin(sub_expr(S(e), f))
        return t, c

    def exits(self):
        """[(branch, taken polarity that leaves, target)]"""
        out = []
        for b in sorted(self.body):
            t = self.fn.blocks[b].term
            if t.op == 'br' and len(t.attr['targets']) == 2:
                for tgt, pol in zip(t.attr['targets'], (True, False)):
                    if tgt not in self.body:
                        out.append((t, pol, tgt))
            elif t.op == 'switch':
                for tgt in [t.attr['default']] + [l for _, l in t.attr['cases']]:
                    if tgt not in self.body:
                        out.append((t, None, tgt))
        return out

    def stays_while(self, t, pol, n):
        """leaving by (t, pol) happens exactly when the number of rounds done has reached n (a linear form, n >= 0)"""
        k, p = literal(S(self.fn.ex(t.ops[0])), not pol)       # the condition to stay
        if isinstance(k, bool):
            return False
        from flow import lin
        def diff(a, b):
            ta, ca = self.inrounds(a)
            tb, cb = self.inrounds(b)
            r = dict(ta)
            for q, c in tb.items():
                r[q] = r.get(q, 0) - c
                if r[q] == 0:
                    del r[q]
            return r, ca - cb
        want = dict({('T',): 1})
        for q, c in n[0].items():
            want[q] = want.get(q, 0) - c
        want = ({q: c for q, c in want.items() if c}, -n[1])
        neg = lambda d: ({q: -c for q, c in d[0].items()}, -d[1])
        if k[0] == 'eq':
            d = diff(k[1], k[2])
            return not p and d in (want, neg(want))
        if k[0] == 'lt':
            d = diff(k[2], k[3])
            if p:                                   # a < b: rounds < n
                return d == want
            d = diff(k[3], k[2])                    # not a < b, i.e. b <= a, i.e. b - 1 < a
            return (d[0], d[1] - 1) == want
        return False

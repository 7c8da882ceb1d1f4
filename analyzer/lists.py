"""Symbolic execution-free shape analysis of the intrusive doubly linked lists.

The stores to head/tail/next/prev along each path are collected, with every loaded value identified by the
place and the moment it was read from; as soon as the collected stores amount to a complete operation on a
well-formed list (insert at the end, insert before a node, unlink) they are committed as that operation.
Whatever is left when control leaves the function or reaches code that may look at the lists is malformed.
"""
from flow import *

LINK = {'head', 'tail', 'next', 'prev'}
STRUCTS = {'tasklist_s', 'timerlist_s', 'events_task_s', 'actors_s'}


def is_link(a):
    return a[0] == 'fld' and a[3] in LINK and (a[2] in STRUCTS or a[2] is None)


def succs(b):
    t = b.term
    if t.op == 'br':
        return list(t.attr['targets'])
    if t.op == 'switch':
        return [l for _, l in t.attr['cases']] + [t.attr['default']]
    return []


class Lists:
    # state: (env, known, pend, facts, detached, extra)
    def __init__(self, fn, report, on_op=None, step=None, edge=None, exit=None, quiet=(), limit=400000, extra=(), phi=None):
        self.fn = fn.ensure()
        self.R = report
        self.on_op = on_op or (lambda x, *a: x)
        self.ustep = step
        self.uedge = edge
        self.uexit = exit
        self.uphi = phi
        self.quiet = set(quiet)
        self.nops = 0
        self.stored = {S(fn.ex(i.ops[1]))[3] for i in fn.instrs() if i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'fld'}
        self.tracked = self._tracked()
        self._liveness()
        self.w = Walker(fn, self._step, edge=self._edge, exit=self._exit, limit=limit, on_phi=self._phi)
        self.extra0 = extra

    def run(self):
        self.w.run((frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), self.extra0))
        return self

    # which loads feed a link store or a test of a link
    def _tracked(self):
        fn = self.fn
        out, phis, work = set(), set(), []
        for i in fn.instrs():
            if i.op == 'store' and is_link(S(fn.ex(i.ops[1]))):
                work += [fn.ex(i.ops[0]), fn.ex(i.ops[1])]
            elif i.op in ('br',) and i.ops:
                e = fn.ex(i.ops[0])
                if mentions(e, lambda x: x[0] == 'load' and is_link(x[1])) or mentions(e, lambda x: x[0] == 'phi'):
                    work.append(e)
        while work:
            e = work.pop()
            for x in walk(e):
                if x[0] == 'load':
                    d = fn.defs.get(x[2])
                    if d is not None and (is_link(x[1]) or x[1][0] == 'fld' and x[1][3] in self.stored):
                        out.add(x[2])
                elif x[0] == 'phi' and x[1] not in phis:
                    phis.add(x[1])
                    work += [fn.ex(v) for v, _ in fn.defs[x[1]].attr['inc']]
        return out

    def _liveness(self):
        """tracked loads whose value may still matter at the start of each block"""
        fn = self.fn
        tr = self.tracked
        loads = lambda e: {x[2] for x in walk(e) if x[0] == 'load' and x[2] in tr} | {x[1] for x in walk(e) if x[0] == 'phi'}
        use, dfn, out_phi = {}, {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    d.add(i.dest)
                    for v, p in i.attr['inc']:
                        out_phi.setdefault(p, set()).update(loads(fn.ex(v)))
                    continue
                es = []
                if i.op in ('store', 'load', 'call', 'atomicrmw', 'cmpxchg', 'ret') or (i.op in ('br', 'switch') and i.ops):
                    es = [fn.ex(o) for o in i.ops]
                for e in es:
                    u |= loads(e) - d
                if i.op == 'load' and i.dest in tr:
                    d.add(i.dest)
            use[b.name], dfn[b.name] = u, d
        live = {b.name: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                o = set(out_phi.get(b.name, ()))
                for t in succs(b):
                    o |= live[t]
                n = use[b.name] | (o - dfn[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        self.live, self.phis = {}, {}
        self.pblk = {i.dest: b.name for b in fn.order for i in b.ins if i.op == 'phi'}
        for b in fn.order:
            for i in b.ins:
                if i.op != 'phi':
                    self.live[id(i)] = frozenset(live[b.name])
                    self.phis[id(i)] = {j.dest for j in b.ins if j.op == 'phi'}
                    break

    def _prune(self, s, lv, w, ph=()):
        env, known, pend, facts, det, extra = s
        E = {d: v for d, v in env if d in lv or d in ph}
        keep = set(E.values()) | {v for _, v in pend} | {a[1] for a, _ in pend}
        syms = set()
        for v in keep:
            syms |= {x for x in walk(v) if x[0] in ('ld', 'phi', 'arg', 'call')}
        K = {a: v for a, v in known if a[3] in LINK and
             (a[3] in ('head', 'tail') or v in syms or a[1] in syms) and
             all(x in syms or x[1][3] not in LINK for x in walk(a[1]) if x[0] == 'ld')}
        for a, v in K.items():
            syms.add(v)
            syms.add(a[1])
        F = frozenset((k, v) for k, v in facts if ((k in syms or k[0] in ('phi', 'arg', 'call') or k[0] == 'load' and mentions(k, lambda x: x in syms)) if k[0] != 'lt' else
                                                   any(mentions(y, lambda x: x in syms or x[0] == 'phi') for y in k[2:])))
        return (frozenset(E.items()), frozenset(K.items()), pend, F, frozenset(d for d in det if d in syms), extra)

    # symbolic value of an expression under env
    def ev(self, e, env):
        k = e[0]
        if k == 'load':
            if len(e) > 2 and e[2] in env:
                return env[e[2]]
            return ('load', self.ev(e[1], env))
        if k == 'phi':
            return env.get(e[1], e)
        if k == 'fld':
            b = self.ev(e[1], env)
            return ('fld', b, None, e[3])
        if k == 'idx':
            if e[2] == ('int', 0):
                return self.ev(e[1], env)
            return ('idx', self.ev(e[1], env), self.ev(e[2], env))
        if k == 'bin':
            return S(('bin', e[1], self.ev(e[2], env), self.ev(e[3], env)))
        if k == 'cmp':
            return ('cmp', e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == 'select' and len(e) == 4:
            return (k,) + tuple(self.ev(x, env) for x in e[1:])
        if k in ('zext', 'sext', 'trunc'):
            return tuple(self.ev(x, env) if isinstance(x, tuple) else x for x in e)
        return S(e) if k in ('call',) else e

    def _phi(self, s, ph, frm, binds, w):
        """phis take new values: what was known about them goes, what is known about the new value stays"""
        env, known, pend, facts, det, extra = s
        if not ph:
            return s
        E = dict(env)
        if self.uphi:
            extra = self.uphi(extra, ph, frm, w, s, lambda v: self.ev(self.fn.ex(v), E))
        names = {i.dest for i in ph}
        old = lambda x: x[0] == 'phi' and x[1] in names
        F = dict(facts)
        new, newE = {}, {}
        for i in ph:
            for v, b in i.attr['inc']:
                if b == frm:
                    e = self.ev(self.fn.ex(v), E)
                    if e == ('phi', i.dest):
                        pass
                    elif e[0] == 'int' or not mentions(e, old) and (e[0] in ('cmp', 'arg', 'call') or not w._back(frm, self.pblk[i.dest])):
                        newE[i.dest] = e
                    f = True if e == ('int', 1) else False if e == ('int', 0) else F.get(e)
                    if e == ('phi', i.dest):
                        names.discard(i.dest)
                    elif f is not None:
                        new[('phi', i.dest)] = f
        F = {k: v for k, v in F.items() if not mentions(k, old)}
        F.update(new)
        if any(mentions(a, old) or mentions(v, old) for a, v in pend):
            self.R.bad(self.fn, ph[0].where(), 'a task or timer list is left half linked over a loop', w.trace())
            pend = frozenset()
        return (frozenset([(k, v) for k, v in env if not mentions(v, old) and k not in names] + list(newE.items())),
                frozenset((a, v) for a, v in known if not mentions(a, old) and not mentions(v, old)),
                pend, frozenset(F.items()), frozenset(d for d in det if not mentions(d, old)), extra)

    def value(self, v, w, st):
        return self.ev(self.fn.ex(v), dict(st[0]))

    def _step(self, s, i, w):
        lv = self.live.get(id(i))
        if lv is not None:
            s = self._prune(s, lv, w, self.phis[id(i)])
        if self.ustep and i.op == 'call':
            x = self.ustep(s[5], i, w, s)
            if x is None:
                return None
            s = s[:5] + (x,)
        env, known, pend, facts, det, extra = s
        fn = self.fn
        if i.op == 'load' and i.dest in self.tracked:
            E = dict(env)
            A = self.ev(self.fn.ex(i.ops[0]), E)
            P, K = dict(pend), dict(known)
            if A in P:
                v = P[A]
            elif A in K:
                v = K[A]
            else:
                v = ('ld', A, i.dest)
                facts = frozenset(f for f in facts if not mentions(f[0], lambda x: x == v))
                det = det - {v}
                K = {a: b for a, b in K.items() if not mentions(a, lambda x: x == v) and b != v}
                if A[0] == 'fld' and A[3] in ('prev', 'next') and not P:
                    end = 'head' if A[3] == 'prev' else 'tail'
                    if any(a[3] == end and b == A[1] for a, b in K.items()):
                        facts = facts | {(v, False)}        # the first has none before it, the last none after it
                K[A] = v
                known = frozenset(K.items())
            E[i.dest] = v
            s = (frozenset(E.items()), known, pend, facts, det, extra)
        elif i.op == 'store':
            a0 = self.fn.ex(i.ops[1])
            E = dict(env)
            A = self.ev(a0, E)
            v = self.ev(self.fn.ex(i.ops[0]), E)
            if is_link(a0):
                P = dict(pend)
                P[A] = v
                pend = frozenset(P.items())
                s = (env, known, pend, facts, det, extra)
                s = self._commit(s, i, w)
            else:
                K = dict(known)
                K.pop(A, None)
                if A[0] == 'fld':
                    facts = frozenset((k, f) for k, f in facts if not mentions(
                        k, lambda x: x[0] == 'load' and x[1][0] == 'fld' and x[1][3] == A[3]))
                s = (env, frozenset(K.items()), pend, facts, det, extra)
        elif i.op == 'call':
            nm = i.attr['name'] or ''
            if nm not in w.pure and not nm.startswith('llvm.') and nm not in self.quiet:
                s = self._sync(s, i, w)
                env, known, pend, facts, det, extra = s
                facts = frozenset((k, v) for k, v in facts if not mentions(k, lambda x: x[0] == 'load'))
                s = (env, frozenset(), frozenset(), facts, frozenset(), extra)
        if self.ustep and i.op != 'call':
            x = self.ustep(s[5], i, w, s)
            if x is None:
                return None
            s = s[:5] + (x,)
        return s

    def _sync(self, s, i, w):
        env, known, pend, facts, det, extra = s
        left = [(a, v) for a, v in pend if not (a[3] in ('next', 'prev') and a[1] in det)]
        if left:
            self.R.bad(self.fn, i.where(), 'a task or timer list is left half linked (%s)' % ', '.join(
                sorted('%s := %s' % (sh(a), sh(v)) for a, v in left))[:300], w.trace())
        return s

    def _edge(self, s, key, pol, i, w):
        if i.op == 'br':
            e = self.fn.ex(i.ops[0])
            k0, p0 = literal(S(w.subst(e, w.binds)), True)
            env, known, pend, facts, det, extra = s
            if not isinstance(k0, bool):
                E = dict(env)
                k, p = literal(self.ev(e, E), pol == p0)
                if isinstance(k, bool):
                    if not k:
                        return None
                else:
                    F = dict(facts)
                    if k[0] == 'eq' and k[2] == ('int', 0):
                        x = k[1]
                        if F.get(x) is not None and F[x] != (not p):
                            return None
                        if x[0] in ('ld', 'phi', 'arg', 'call', 'load'):
                            F[x] = not p
                    if k[0] == 'lt':
                        if k[1] == 's' and k[3] == ('int', 0):
                            d = k[2]                    # the sign of a difference
                            if d[0] == 'bin' and d[1] == 'sub':
                                k = ('lt', 'u', d[2], d[3])
                        F[('lt',) + k[1:]] = p
                    s = (env, known, pend, frozenset(F.items()), det, extra)
                if self.uedge and not isinstance(k, bool):
                    x = self.uedge(s[5], k, p, i, w, s)
                    if x is None:
                        return None
                    s = s[:5] + (x,)
        return s

    def _exit(self, s, t, w):
        self._sync(s, t, w)
        if self.uexit:
            self.uexit(s[5], t, w, s)

    def _commit(self, s, i, w):
        env, known, pend, facts, det, extra = s
        P, K, F = dict(pend), dict(known), dict(facts)
        own = {a: v for a, v in P.items()}
        Z = ('int', 0)

        def null(x):
            return True if x == Z else (not F[x]) if x in F else None
        keys = set(own)

        def strip(ks):
            """stores that do not belong to ks: only links of nodes already unlinked may remain"""
            return all(a in ks or (a[3] in ('next', 'prev') and a[1] in det) for a in keys)
        for a, v in sorted(own.items(), key=repr):
            # insertion: some node c gets prev and next
            if a[3] != 'prev' or v is None:
                continue
            c = a[1]
            nx, pv = ('fld', c, None, 'next'), ('fld', c, None, 'prev')
            if nx not in own:
                continue
            N, Pv = own[nx], own[pv]
            # which list?
            for ls in {b[1] for b in own if b[3] in ('head', 'tail')} | {b[1] for b in K if b[3] in ('head', 'tail')}:
                hd, tl = ('fld', ls, None, 'head'), ('fld', ls, None, 'tail')
                ks = {nx, pv}
                good = True
                if null(N) is True:
                    ks.add(tl)
                    good = own.get(tl) == c
                    oldtail = K.get(tl)
                    if Pv != Z:
                        good = good and Pv == oldtail
                    kind = 'append'
                else:
                    ks.add(('fld', N, None, 'prev'))
                    good = own.get(('fld', N, None, 'prev')) == c and (null(N) is False)
                    if Pv != Z:
                        good = good and Pv == K.get(('fld', N, None, 'prev'))
                    kind = 'insert'
                if not good:
                    continue
                if null(Pv) is True:
                    ks.add(hd)
                    good = own.get(hd) == c
                    if kind == 'append' and Pv == Z:
                        good = good and K.get(tl) is not None and null(K.get(tl)) is True or \
                            good and K.get(hd) is not None and null(K.get(hd)) is True
                    if kind == 'insert' and Pv == Z:
                        good = good and (K.get(hd) == N or null(K.get(('fld', N, None, 'prev'), None)) is True)
                else:
                    ks.add(('fld', Pv, None, 'next'))
                    good = own.get(('fld', Pv, None, 'next')) == c and null(Pv) is False
                if not good or not strip(ks):
                    continue
                return self._done(s, kind, ls, c, N, Pv, i, w)
        # unlinking: some node t whose next/prev were read
        for t in {a[1] for a in K if a[3] in ('next', 'prev')}:
            N, Pv = K.get(('fld', t, None, 'next')), K.get(('fld', t, None, 'prev'))
            if N is None:
                continue
            for ls in {b[1] for b in own if b[3] in ('head', 'tail')} | {b[1] for b in K if b[3] in ('head', 'tail')} | {None}:
                hd, tl = ('fld', ls, None, 'head'), ('fld', ls, None, 'tail')
                first = ls is not None and K.get(hd) == t
                for asfirst in ((True, False) if first else (False,)):
                    pv = Z if asfirst else Pv
                    if pv is None:
                        continue
                    ks = set()
                    good = True
                    if null(pv) is True:
                        if ls is None:
                            continue
                        ks.add(hd)
                        good = own.get(hd) == N
                    elif null(pv) is False:
                        ks.add(('fld', pv, None, 'next'))
                        good = own.get(('fld', pv, None, 'next')) == N
                    else:
                        continue
                    same = lambda x: x == pv or (null(pv) is True and (x == Z or x is not None and x == Pv))
                    if null(N) is False:
                        ks.add(('fld', N, None, 'prev'))
                        good = good and same(own.get(('fld', N, None, 'prev')))
                    elif null(N) is True:
                        if ls is None:
                            continue
                        ks.add(tl)
                        good = good and same(own.get(tl))
                    else:
                        continue
                    if not good:
                        continue
                    extra_ok = all(a in ks or (a[3] in ('next', 'prev') and (a[1] in det or a[1] == t)) for a in keys)
                    if extra_ok:
                        return self._done(s, 'unlink', ls if first or hd in ks or tl in ks else None, t, N, pv, i, w, first=first or null(Pv) is True)
        return s

    def _done(self, s, kind, ls, c, N, Pv, i, w, first=None):
        env, known, pend, facts, det, extra = s
        self.nops += 1
        K = dict(known)
        rest = {}
        if kind == 'unlink':
            det = det | {c}
            rest = {a: v for a, v in pend if a[3] in ('next', 'prev') and a[1] == c}
        else:
            det = det - {c}
        F = dict(facts)
        newK = {a: v for a, v in K.items() if a[3] not in LINK} if K else {}
        if kind != 'unlink':
            F[c] = True
        if kind == 'append':
            newK[('fld', ls, None, 'tail')] = c
        s2 = (env, frozenset(newK.items()), frozenset(rest.items()), frozenset(F.items()), det, extra)
        x = self.on_op(extra, kind, ls, c, N, Pv, first, i, w, s)
        return s2[:5] + (x,)


def sh(e):
    if not isinstance(e, tuple):
        return str(e)
    k = e[0]
    if k == 'ld':
        return sh(e[1])
    if k == 'fld':
        return sh(e[1]) + '.' + e[3]
    if k == 'load':
        return sh(e[1])
    if k == 'idx':
        return '%s[%s]' % (sh(e[1]), sh(e[2]))
    if k == 'int':
        return str(e[1])
    return show(e)

"""P10: signals: one record each, the right callback, counted once, default put back, mask put back."""
import re
from rules.common import *
from flow import *
from track import Track, Loop, Effects, root, nodest
from rules.p13 import tfld, on_fds, target, count_step, strip, eff, is_target, STABLE_F

TEXT = [
    ('table', 'a signal gets its own record again, or a free one only when none has it; nothing changes unless the handler is installed'),
    ('handler', 'a signal that arrives has the callback of its own record called once, with its number, what it is and the argument'),
    ('default', 'a signal taken out leaves an empty record and the default action'),
    ('mask', 'whoever blocks the signals puts back the very mask it found, kept where no other thread writes'),
    ('counted', 'a signal is counted once, for the loop it was registered with last, and told apart from the descriptor of its number'),
    ('only', 'no other function changes a record, and none names a loop that is released'),
]
Z = ('int', 0)
SIG, RESTART = 255, 0x10000000
BADFLAGS = 0x80000000 | 0x40000000 | 4          # SA_RESETHAND, SA_NODEFER, SA_SIGINFO


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def view(R):
    return R.prog.std(extra=['events_signals'])


def slots(m):
    mm = re.search(r'\[(\d+) x ', m.globals.get('events_sig', ''))
    if not mm:
        raise AnalysisBroken('anchor vanished: the table of signals')
    return int(mm.group(1))


def rec(a):
    """(index, field) of a place in the table of signals"""
    if a[0] != 'fld':
        return None
    b = a[1]
    if b == ('g', 'events_sig'):
        return Z, a[3]
    if b[0] == 'idx' and b[1] == ('g', 'events_sig'):
        return b[2], a[3]
    return None


def ofrec(e):
    """(index, field) of a record's value"""
    e = wide(e)
    return rec(e[1]) if e[0] in ('ld', 'load') else None


def wide(e):
    while e is not None and e[0] in ('zext', 'sext', 'trunc'):
        e = e[-1]
    return e


def plain(e):
    """an index without the widening and the loads' own names"""
    return nodest(wide(e))


class Look:
    """what is known of records on the way: x[0] = {(index, what, truth)}, x[1] = all of them were looked at"""

    def __init__(self, m, fn, want, **kw):
        self.m, self.fn, self.N, self.want = m, fn, slots(m), want
        self.loops = {h: {('phi', d) for d, (s, k) in Loop(fn, h).iv.items() if S(s) == Z and k == 1} for h in loop_headers(fn)}
        self.ivs = {p for v in self.loops.values() for p in v}
        self.badloops = set()
        self.kw = kw

    def learn(self, x, k, p, T):
        know, full = x
        if k[0] == 'lt' and wide(k[2]) in self.ivs and k[3] == ('int', self.N):
            if p:
                know = know | {(wide(k[2]), 'in', True)}
            else:
                h = next(h for h, v in self.loops.items() if wide(k[2]) in v)
                T.F[('eq', wide(k[2]), ('int', self.N))] = True
                full = full or self.second and h not in self.badloops
        elif k[0] == 'eq' and wide(k[1]) in self.ivs and k[2] == ('int', self.N) and wide(k[1]) in self.ivs:
            if not p:
                know = know | {(wide(k[1]), 'in', True)}
            else:
                h = next(h for h, v in self.loops.items() if wide(k[1]) in v)
                full = full or self.second and h not in self.badloops
        elif k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                r = ofrec(a)
                if r and r[1] in ('sig', 'loop') and root_arg(b) == self.want.get(r[1]):
                    know = know | {(plain(r[0]), r[1], p)}
                elif r and r[1] == 'proc' and b == Z:
                    know = know | {(plain(r[0]), 'free', p)}
                if r and T.fact(('lt', 's', r[0], ('int', self.N))) is True:
                    know = know | {(plain(r[0]), 'in', True)}
        return know, full

    def back(self, x, h, again, T):
        (know, full), u = x
        if again and not self.second:
            if not any(self.done(know, iv) for iv in self.loops.get(h, ())):
                self.badloops.add(h)
        mine = self.loops.get(h, set())
        return ((frozenset(q for q in know if not mentions(q[0], lambda y: y in mine)), full), u)

    def done(self, know, iv):
        if 'loop' in self.want:
            return (iv, 'loop', False) in know or (iv, 'gone', True) in know
        return (iv, 'sig', False) in know or (iv, 'free', True) in know

    def run(self, step, ex, x0, **kw):
        def edge(x, k, p, i, T):
            return (self.learn(x[0], k, p, T), x[1])

        def st(x, i, T):
            know, full = x[0]
            if i.op == 'store':
                r = rec(T.ev(i.ops[1]))
                if r and r[1] == 'loop' and T.ev(i.ops[0]) == Z:
                    know = know | {(plain(r[0]), 'gone', True)}
            x = ((know, full), x[1])
            return (x[0], step(x[1], x[0], i, T)) if self.second else x

        for self.second in (False, True):
            Track(self.fn, step=st, edge=edge, back=self.back,
                  exit=(lambda x, t, T, rv: ex(x[1], x[0], t, T, rv)) if self.second else None, x0=((frozenset(), False), x0), **kw).run()

    def own(self, know, ix):
        q = plain(ix)
        return (q, 'sig', True) in know and (q, 'free', False) in know and self.inside(know, q)

    def free(self, know, ix):
        q = plain(ix)
        return (q, 'free', True) in know and self.inside(know, q)

    def inside(self, know, q):
        return q[0] == 'int' and 0 <= q[1] < self.N or (q, 'in', True) in know


def infds(a):
    """a place in the table of descriptors"""
    while a[0] in ('fld', 'idx'):
        a = a[1]
    return a[0] in ('ld', 'load') and a[1][0] == 'fld' and a[1][3] == 'fds'


def root_arg(e):
    while e[0] == 'fld':
        e = e[1]
    return e


# ------------------------------------------------------------------ the mask
def masking(x, i, T, R, fn):
    """x = (filled buffers, buffer the mask was kept in or None)"""
    filled, kept = x
    n = name(i)
    if n == 'sigfillset':
        return filled | {T.ev(i.ops[0])}, kept
    if n in ('sigemptyset', 'sigdelset', 'sigaddset'):
        return filled - {T.ev(i.ops[0])}, kept
    if n in ('pthread_sigmask', 'sigprocmask'):
        how, a, old = (T.ev(o) for o in i.ops)
        if old != Z and a in filled and how[0] == 'int' and how[1] in (0, 2):
            R.check(kept is None, fn, i.where(), 'the mask found first is forgotten', trace=T.trace())
            R.check(root(old)[0] == 'alloca', fn, i.where(), 'the mask is kept where another thread writes its own', trace=T.trace())
            R.check(root(a)[0] == 'alloca', fn, i.where(), 'the signals to block are kept where another thread writes', trace=T.trace())
            return filled - {old}, old
        R.check(kept is not None and a == kept and how == ('int', 2) and old == Z, fn, i.where(),
                'another mask than the one found is put back', trace=T.trace())
        return filled, None
    return x


def mask(R):
    R.cur = 'mask'
    m = view(R)
    n = 0
    for fn in funcs(m):
        if not calls(fn, 'pthread_sigmask', 'sigprocmask') or not any(name(i) == 'sigfillset' for i in fn.instrs()):
            continue
        n += 1
        R.saw(fn)

        def ex(x, t, T, rv):
            R.check(x[1] is None, fn, t.where(), 'the signals stay blocked', trace=T.trace())
        Track(fn, step=lambda x, i, T: masking(x, i, T, R, fn), exit=ex, x0=(frozenset(), None), noreturn=('exit',)).run()
    R.floor(n, 2, 'functions that block the signals')


# ------------------------------------------------------------------ the table
class Quiet:
    def check(self, *a, **k):
        pass
    bad = ok = check


def actions(x, i, T):
    """stores to a sigaction record: {(root, what): value}"""
    if i.op == 'store':
        a = T.ev(i.ops[1])
        rt = root(a)
        if rt[0] in ('g', 'alloca'):
            f = a[3] if a[0] == 'fld' else None
            if f == 'sa_flags':
                return x | {(rt, 'flags', T.ev(i.ops[0]))} if True else x
            if a == rt or f in ('sa_handler', '__sigaction_handler'):
                return frozenset(q for q in x if q[:2] != (rt, 'fn')) | {(rt, 'fn', T.ev(i.ops[0]))}
    return x


def getact(x, rt, what):
    v = [q[2] for q in x if q[:2] == (rt, what)]
    return v[0] if len(v) == 1 else None


def table(R):
    R.cur = 'table'
    m = view(R)
    fn = m.fn('events_add_signal')
    R.saw(fn)
    L = Look(m, fn, {'sig': ('arg', 0)})
    FIELDS = {'sig': ('arg', 0), 'proc': ('arg', 1), 'data': ('arg', 2)}
    hs = set()
    nst = [0, 0]

    # x = (fields written, index, actions, the call that installed, mask state)
    def step(x, know, i, T):
        wr, ix, act, inst, mk = x
        mk = masking(mk, i, T, Quiet(), fn)
        act = actions(act, i, T)
        if i.op == 'store':
            r = rec(T.ev(i.ops[1]))
            if r:
                nst[0] += 1
                q = plain(r[0])
                R.check(ix is None or q == ix, fn, i.where(), 'two records are written for one signal', trace=T.trace())
                if ix is None:
                    R.check(L.own(know[0], q) or L.free(know[0], q) and know[1], fn, i.where(),
                            'the record written is neither the signal\'s own nor a free one after all were looked at', trace=T.trace())
                if r[1] in FIELDS:
                    R.check(T.ev(i.ops[0]) == FIELDS[r[1]], fn, i.where(), 'the record does not get what was asked for', trace=T.trace())
                R.check(mk[1] is not None, fn, i.where(), 'a record is written while its signal may arrive', trace=T.trace())
                wr, ix = wr | {r[1]}, q
        if name(i) == 'sigaction':
            rt = root(T.ev(i.ops[1]))
            f, fl = getact(act, rt, 'fn'), getact(act, rt, 'flags')
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'the handler is installed for another signal', trace=T.trace())
            R.check(f is not None and f[0] == 'g' and f[1] in m.fns, fn, i.where(), 'what is installed is no handler of the library', trace=T.trace())
            R.check(fl is not None and fl[0] == 'int' and fl[1] & RESTART and not fl[1] & BADFLAGS, fn, i.where(),
                    'the handler does not stay installed, or calls it interrupts are not gone on with', trace=T.trace())
            if f is not None and f[0] == 'g':
                hs.add(f[1])
            inst = i.dest
        return (wr, ix, act, inst, mk)

    def ex(x, know, t, T, rv):
        wr, ix, act, inst, mk = x
        nst[1] += 1
        ok = inst is not None and T.null(('call', 'sigaction', inst)) is True
        if rv is not None and rv[0] == 'int' and rv[1] < 0:
            R.check(not wr, fn, t.where(), 'a signal that is refused leaves a record', trace=T.trace())
            R.check(not ok, fn, t.where(), 'a signal is refused although its handler was installed', trace=T.trace())
            return
        R.check(ok, fn, t.where(), 'a signal is taken without its handler', trace=T.trace())
        R.check(set(FIELDS) | {'loop'} <= wr, fn, t.where(), 'the record of a signal is not complete', trace=T.trace())
        R.check(rv is not None and ix is not None and plain(rv) == ix, fn, t.where(), 'another record than the one written is reported', trace=T.trace())
    L.run(step, ex, (frozenset(), None, frozenset(), None, (frozenset(), None)))
    R.floor(nst[0], 4, 'stores to the table')
    R.floor(nst[1], 2, 'ways out of registering a signal')
    return hs


def handler(R):
    hs = table(R)
    R.cur = 'handler'
    m = view(R)
    R.floor(len(hs), 1, 'handlers')
    for h in sorted(hs):
        fn = m.fn(h)
        R.saw(fn)
        L = Look(m, fn, {'sig': ('arg', 0)})
        n = [0, 0]
        GOT = ('g', 'events_got_signal')

        def delta(v):
            t, c = lin(v)
            return c if len(t) == 1 and list(t.values()) == [1] and list(t)[0][0] in ('ld', 'load') and list(t)[0][1] == GOT else None

        # x = (index of the record called or None, running mark of it, counted, signal mask, ended mark)
        def step(x, know, i, T):
            ix, run, got, mk, busy = x
            mk = masking(mk, i, T, Quiet(), fn)
            if i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                r = rec(a)
                if r:
                    R.check(r[1] == 'is_running' and (ix is None or plain(r[0]) == ix) and v in (Z, ('int', 1)), fn, i.where(),
                            'a record is changed by a signal that arrives', trace=T.trace())
                    if ix is None:
                        run = (plain(r[0]), v)
                    elif v == Z:
                        run = None
                if a == GOT:
                    # the counter's present value is what was loaded last, or stored last, from it
                    t, c = lin(v)
                    k = [e for e in t if e[0] in ('ld', 'load') and e[1] == GOT]
                    R.check(ix is None, fn, i.where(), 'a signal with a callback is taken for one without', trace=T.trace())
                    old = T.mem(GOT)
                    d = None
                    if old is not None and delta(old) is not None and delta(v) is not None:
                        d = delta(v) - delta(old)
                    elif delta(v) is not None:
                        d = delta(v)
                    got = got + d if d is not None and abs(got) < 4 else 99
                if a == ('g', 'signal_running'):
                    busy = v != Z
            c = i.attr.get('callee') if i.op == 'call' and not i.attr['name'] else None
            if c is not None:
                e = T.ev(c)
                r = ofrec(e)
                a = [T.ev(o) for o in i.ops]
                n[0] += 1
                if r is None or r[1] != 'proc':
                    R.bad(fn, i.where(), 'something else than the callback of a record is called', T.trace())
                    return x
                R.check(ix is None, fn, i.where(), 'two callbacks are called for one signal', trace=T.trace())
                R.check(L.own(know[0], r[0]), fn, i.where(), 'the record called is not known to be the signal\'s', trace=T.trace())
                R.check(len(a) == 3 and a[0] == ('arg', 0) and a[1] == ('int', SIG), fn, i.where(),
                        'the callback is not told the signal, or that it is one', trace=T.trace())
                rd = ofrec(a[2]) if len(a) == 3 else None
                R.check(rd is not None and rd[1] == 'data' and plain(rd[0]) == plain(r[0]), fn, i.where(),
                        'the callback does not get its own argument', trace=T.trace())
                R.check(mk[1] is not None, fn, i.where(), 'other signals arrive while a callback runs', trace=T.trace())
                R.check(run == (plain(r[0]), ('int', 1)), fn, i.where(), 'the record is not marked as running', trace=T.trace())
                R.check(got == 0, fn, i.where(), 'a signal with a callback ends the loops', trace=T.trace())
                ix = plain(r[0])
            return (ix, run, got, mk, busy)

        def ex(x, know, t, T, rv):
            ix, run, got, mk, busy = x
            n[1] += 1
            if ix is None:
                R.check(know[1], fn, t.where(), 'a signal is dropped before all records were looked at', trace=T.trace())
                R.check(got == 1, fn, t.where(), 'a signal without callback does not end the loops', trace=T.trace())
            else:
                R.check(run is None, fn, t.where(), 'the record stays marked as running', trace=T.trace())
            R.check(not busy, fn, t.where(), 'the next signal is taken for one inside this one', trace=T.trace())
        L.run(step, ex, (None, None, 0, (frozenset(), None), False), noreturn=('exit',))
        R.floor(n[0], 1, 'calls of callbacks')
        R.floor(n[1], 2, 'ways out of the handler')


def default(R):
    R.cur = 'default'
    m = view(R)
    fn = m.fn('events_del_signal')
    R.saw(fn)
    n = [0]

    # x = (fields cleared, actions, default put back, sets that may have failed, sig known)
    def step(x, i, T):
        wr, act, done, tried = x
        act = actions(act, i, T)
        if i.op == 'store':
            r = rec(T.ev(i.ops[1]))
            if r:
                R.check(plain(r[0]) == ('arg', 1), fn, i.where(), 'another record is emptied', trace=T.trace())
                own = any(v and k[0] == 'eq' and {True} == {True for a, b in ((k[1], k[2]), (k[2], k[1]))
                                                        if ofrec(a) and ofrec(a)[1] == 'sig' and plain(ofrec(a)[0]) == ('arg', 1) and b == ('arg', 0)}
                          for k, v in T.F.items())
                R.check(own or wr, fn, i.where(), 'the record emptied is not the signal\'s', trace=T.trace())
                v = T.ev(i.ops[0])
                wr = wr | {(r[1], v)}
        if name(i) == 'sigemptyset':
            tried = i.dest
        if name(i) == 'sigaction':
            f = getact(act, root(T.ev(i.ops[1])), 'fn')
            R.check(T.ev(i.ops[0]) == ('arg', 0) and f == Z, fn, i.where(), 'what is put back is not the default of the signal', trace=T.trace())
            done = True
        return (wr, act, done, tried)

    def ex(x, t, T, rv):
        wr, act, done, tried = x
        n[0] += 1
        if not wr:
            R.check(not done, fn, t.where(), 'a signal that has no record here is set to its default', trace=T.trace())
            R.check(any(k[0] == 'eq' and not v and mentions(k, lambda y: isinstance(y, tuple) and y[0] in ('ld', 'load') and rec(y[1]) and rec(y[1])[1] == 'sig')
                        for k, v in T.F.items()), fn, t.where(), 'a signal stays registered', trace=T.trace())
            return
        d = dict(wr)
        R.check(d.get('proc') == Z and 'sig' in d and d['sig'][0] == 'int' and d['sig'][1] <= 0, fn, t.where(), 'the record is not emptied', trace=T.trace())
        R.check(done or tried is not None and T.null(('call', 'sigemptyset', tried)) is False, fn, t.where(),
                'the default action is not put back', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(frozenset(), frozenset(), False, None)).run()
    R.floor(n[0], 2, 'ways out of taking a signal out')


# ------------------------------------------------------------------ counting
def former(T, e, fd):
    """the loop of the record the descriptor-table entry names"""
    r = ofrec(e)
    return r is not None and r[1] == 'loop' and plain(r[0])[0] in ('ld', 'load') and tfld(plain(r[0])[1], 'signal_idx')


def counted(R):
    R.cur = 'counted'
    m = view(R)
    E = eff(m)
    fn = m.fn('events_add')
    R.saw(fn)
    for was in (0, 1):
        def init(a, was=was):
            return was if tfld(a, 'signal_set') else None

        # x = (call, counts {(whose, delta)}, record's loop, fields of the target written)
        def step(x, i, T):
            ca, cnt, rl, wr = x
            n = name(i)
            if n == 'events_add_signal':
                a = [T.ev(o) for o in i.ops]
                R.check(ca is None and a == [('arg', 1), ('arg', 4), ('arg', 5)], fn, i.where(), 'another signal or callback is registered', trace=T.trace())
                ca = i.dest
            elif n in ('events_update_internal', 'events_set_timeout'):
                R.bad(fn, i.where(), 'a signal is registered as the descriptor of its number', T.trace())
            elif i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                d = count_step(x, i, T, 'active_signals')
                if d:
                    who = 'new' if d[0] == ('arg', 0) else 'old' if former(T, d[0], None) else '?'
                    R.check(d[1] in (1, -1) and who != '?', fn, i.where(), 'signals are counted for another loop', trace=T.trace())
                    cnt = cnt + ((who, d[1]),) if len(cnt) < 5 else cnt
                if a[0] == 'fld' and a[3] == 'active_descriptors':
                    R.bad(fn, i.where(), 'a signal is counted as a descriptor', T.trace())
                if a[0] == 'fld' and a[3] == 'loop' and ca and mentions(a[1], lambda y: y == ('call', 'events_add_signal', ca)):
                    rl = v
                elif a[0] == 'fld' and infds(a):
                    R.check(is_target(a[1], ('arg', 1)) and a[3] in ('signal_set', 'signal_idx'), fn, i.where(),
                            'registering a signal changes the descriptor of its number', trace=T.trace())
                    wr = wr | {(a[3], nodest(strip(v)))}
            return (ca, cnt, rl, wr)

        def ex(x, t, T, rv):
            ca, cnt, rl, wr = x
            tr, w = T.trace(), t.where()
            if rv is None or rv[0] != 'int':
                R.bad(fn, w, 'the result is not definite', tr)
                return
            if ca is None:
                R.check(rv[1] != 0 and not cnt and not wr, fn, w, 'a signal is reported as registered, or counted, without being registered', trace=tr)
                return
            neg = T.fact(('lt', 's', ('call', 'events_add_signal', ca), Z))
            if rv[1] != 0:
                R.check(neg is True and not cnt and not wr, fn, w, 'a signal is refused although it was registered, or counted although it was not', trace=tr)
                return
            R.check(neg is False, fn, w, 'a signal is reported as registered although it was refused', trace=tr)
            R.check(rl == ('arg', 0), fn, w, 'the record does not name the loop of its signal', trace=tr)
            d = {}
            for f, v in wr:
                d[f] = v if f not in d else None
            R.check(d.get('signal_set') == ('int', 1) and d.get('signal_idx') == nodest(('call', 'events_add_signal', ca)), fn, w,
                    'which record the signal has is not noted', trace=tr)
            if was == 0:
                R.check(cnt == (('new', 1),), fn, w, 'a new signal is not counted once', trace=tr)
            else:
                net = sorted(cnt)
                # the facts the path has about the former loop
                gone = any(k[0] == 'eq' and k[2] == Z and v and former(T, k[1], None) for k, v in T.F.items())
                same = any(k[0] == 'eq' and v and ('arg', 0) in k[1:] and any(former(T, e, None) for e in k[1:]) for k, v in T.F.items())
                R.check(net == [('new', 1), ('old', -1)] or net == [('new', 1)] and gone or net == [] and same, fn, w,
                        'a signal registered again is counted again, or not any more', trace=tr)
        Track(fn, step=step, exit=ex, args={2: SIG}, init=init, stable=STABLE_F, x0=(None, (), None, frozenset()),
              keep=lambda n, a: E.keeps(n, a)).run()

    fn = m.fn('events_del')
    R.saw(fn)
    n = [0]

    # x = (taken out, counts, mark)
    def step(x, i, T):
        ds, cnt, mark, oth, know = x
        nm = name(i)
        if nm == 'events_del_signal':
            a = [T.ev(o) for o in i.ops]
            ok = a[0] == ('arg', 0) and plain(a[1])[0] in ('ld', 'load') and tfld(plain(a[1])[1], 'signal_idx')
            R.check(ok and not ds, fn, i.where(), 'another signal is taken out', trace=T.trace())
            R.check(know == frozenset({'sig', 'running'}), fn, i.where(), 'a signal is taken out from outside its callback', trace=T.trace())
            ds = True
            n[0] += 1
        elif nm in ('events_update_internal', 'events_set_timeout'):
            oth = True
        elif i.op == 'store':
            d = count_step(x, i, T, 'active_signals')
            if d:
                R.check(d[1] == -1 and former(T, d[0], None) and ds or d[1] == -1 and former(T, d[0], None), fn, i.where(),
                        'a signal is counted off for another loop', trace=T.trace())
                cnt = min(cnt + 1, 3)
            a = T.ev(i.ops[1])
            if infds(a) and a[3] == 'signal_set':
                mark = T.ev(i.ops[0])
            elif a[0] == 'fld' and a[3] == 'active_descriptors' or a[0] == 'fld' and infds(a) and a[3] != 'signal_idx':
                oth = True
        return (ds, cnt, mark, oth, know)

    def edge(x, k, p, i, T):
        ds, cnt, mark, oth, know = x
        if k[0] == 'eq':
            for a, b in ((k[1], k[2]), (k[2], k[1])):
                r = ofrec(a)
                if r and plain(r[0])[0] in ('ld', 'load') and tfld(plain(r[0])[1], 'signal_idx'):
                    if r[1] == 'sig' and b == ('arg', 0):
                        know = know | {'sig'} if p else know | {'not'}
                    elif r[1] == 'is_running' and b == Z:
                        know = know | {'running'} if not p else know | {'not'}
                    elif r[1] == 'loop' and b == Z and p:
                        know = know | {'gone'}
        return (ds, cnt, mark, oth, know)

    def ex(x, t, T, rv):
        ds, cnt, mark, oth, know = x
        tr, w = T.trace(), t.where()
        if ds:
            R.check(rv == Z and mark == Z and not oth, fn, w, 'a signal taken out stays noted, or the descriptor of its number is changed', trace=tr)
            R.check(cnt == 1 or cnt == 0 and 'gone' in know, fn, w, 'a signal taken out stays counted, or is counted off twice', trace=tr)
        else:
            R.check('not' in know, fn, w, 'a signal is not taken out from its own callback', trace=tr)
            R.check(cnt == 0 and mark is None, fn, w, 'a signal is counted off although it stays', trace=tr)
    Track(fn, step=step, edge=edge, exit=ex, init=lambda a: 1 if tfld(a, 'signal_set') else None, stable=STABLE_F,
          x0=(False, 0, None, False, frozenset()), keep=lambda n, a: E.keeps(n, a)).run()
    R.floor(n[0], 1, 'ways of taking a signal out')


def only(R):
    R.cur = 'only'
    m = view(R)
    home = {'events_add_signal', 'events_del_signal'}
    hs = {S(f.ex(i.ops[0]))[1] for f in [m.fn('events_add_signal')] for i in f.instrs()
          if i.op == 'store' and S(f.ex(i.ops[0]))[0] == 'g'}
    n = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op != 'store':
                continue
            r = rec(S(fn.ex(i.ops[1])))
            if r is None and root(S(fn.ex(i.ops[1]))) == ('g', 'events_sig'):
                r = (None, S(fn.ex(i.ops[1]))[3] if S(fn.ex(i.ops[1]))[0] == 'fld' else '?')
            if r is None or fn.name in home or fn.name in hs:
                continue
            n += 1
            v = S(fn.ex(i.ops[0]))
            R.check(r[1] == 'loop' and (fn.name == 'events_add' or v == Z), fn, i.where(),
                    'a record of a signal is changed outside registration')
    R.floor(n, 1, 'changes of records elsewhere')
    m = R.prog.std(extra=['events_signals', 'events_deinit_loop_internal'])
    fn = m.fn('events_destroy')
    R.saw(fn)
    L = Look(m, fn, {'loop': ('arg', 0)})
    k = [0]

    def step(x, know, i, T):
        if name(i) in ('events_free', 'rp' 'free', 'free') and root_arg(T.ev(i.ops[0])) == ('arg', 0) and T.ev(i.ops[0])[0] != 'ld':
            k[0] += 1
            R.check(know[1], fn, i.where(), 'a loop is released while a record of a signal may name it', trace=T.trace())
        return x
    L.run(step, lambda *a: None, 0)
    R.floor(k[0], 1, 'releases of a loop')


RULES = [start, handler, default, mask, counted, only]

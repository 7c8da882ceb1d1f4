"""P14: the timeouts of descriptors (a wheel of 128 slots, one bit per descriptor and slot)."""
from rules.common import *
from track import *

UNUSED, SLOTS, BIT = 255, 128, 16
STABLE_F = ('fds', 'max_fd', 'timeout_vec_size', 'timeout_vec_of_vec_size', 'timeout_vec', 'resolution', '_free_addr')


def strip(v):
    while v is not None and v[0] == 'trunc':
        v = v[2]
    return v


def flat(a):
    """address as a sum: (list of terms, constant); every term is an expression or an aff"""
    if a[0] == 'idx':
        t, c = flat(a[1])
        u, d = flat(a[2])
        return t + u, c + d
    if a[0] == 'bin' and a[1] == 'add':
        t, c = flat(a[2])
        u, d = flat(a[3])
        return t + u, c + d
    if a[0] == 'int':
        return [], a[1]
    if a[0] == 'bin' and a[1] in ('mul', 'shl') and a[3][0] == 'int':
        t, c = flat(a[2])
        if not t:
            return [], c * (a[3][1] if a[1] == 'mul' else 1 << a[3][1])
    return [a], 0


def isload(e, f):
    return e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == f


def word(a):
    """a is a word of the wheel: (which vector, slot expression, index inside the slot), or None"""
    t, c = flat(a)
    base = [x for x in t if isload(x, 'vec') or isload(x, 'vec_of_vec')]
    if len(base) != 1:
        return None
    which = base[0][1][3]
    size = 'timeout_vec_size' if which == 'vec' else 'timeout_vec_of_vec_size'
    rest = [x for x in t if x is not base[0]]
    slot, inner = ('int', 0), []
    for x in rest:
        if isload(x, size):
            slot = ('int', 1)
        elif x[0] == 'bin' and x[1] == 'mul' and (isload(x[2], size) or isload(x[3], size)):
            slot = x[3] if isload(x[2], size) else x[2]
        elif mentions(x, lambda y: isload(y, 'timeout_vec_size') or isload(y, 'timeout_vec_of_vec_size')):
            return which, None, None
        else:
            inner.append(x)
    return which, strip(slot), (inner, c)


def masked(v, a):
    """v = the word at a with bits changed: ('clear'|'set', mask), or None"""
    v = strip(v)
    if v is None:
        return None
    if v[0] == 'bin' and v[1] in ('and', 'or', 'xor'):
        x, k = v[2], v[3]
        if x[0] == 'int':
            x, k = k, x
        x = strip(x)
        if k[0] == 'int' and x[0] == 'ld' and nodest(x[1]) == nodest(a):
            if v[1] == 'and':
                return 'clear', ~k[1] & 0xffff
            return 'set' if v[1] == 'or' else 'flip', k[1] & 0xffff
    return None


def armers(m):
    """the functions that change single bits of the wheel"""
    out = []
    for f in funcs(m):
        for i in f.instrs():
            if i.op == 'store' and i.attr['ty'] == 'i16' and i.ops[0][0] != 'int':
                a = f.ex(i.ops[1])
                if mentions(a, lambda y: y[0] == 'fld' and y[3] in ('vec', 'vec_of_vec')):
                    out.append(f)
                    break
    return out


# ------------------------------------------------------------ a descriptor's bit
def arm(R):
    R.rule('arm', TEXT['arm'])
    m = R.prog.std()
    fs = armers(m)
    if not fs:
        raise AnalysisBroken('nothing sets a timeout')
    for fn in fs:
        R.saw(fn)
        for c in range(256):
            fd = ('aff', 256, 'fd', c)
            bit, vbit = 0x8000 >> (c % BIT), 0x8000 >> (c // BIT % BIT)
            for used in (False, True):
                for secs in (False, True):
                    one(R, fn, fd, c, bit, vbit, used, secs)


def one(R, fn, fd, c, bit, vbit, used, secs):
    what = 'descriptor %d mod 256, timeout %sset before, %s' % (c, '' if used else 'not ', 'armed' if secs else 'cleared')
    old = [None]

    def init(a):
        return UNUSED if a[0] == 'fld' and a[3] == 'timeout_idx' and not used else None

    def edge(x, k, p, i, T):
        if k[0] == 'eq' and k[2] == ('int', UNUSED) and p and isload(strip(k[1]), 'timeout_idx') and used:
            return None
        if secs and k == ('eq', ('arg', 1), ('int', 0)) and p:
            return None
        return x

    def step(x, i, T):
        if i.op == 'store':
            a = T.ev(i.ops[1])
            w = word(a)
            if w:
                v = T.ev(i.ops[0])
                x = x + ((w[0], w[1], w[2] and (tuple(w[2][0]), w[2][1]), masked(v, a), i.where(), v),)
            elif a[0] == 'fld' and a[3] == 'timeout_idx':
                x = x + (('idx', strip(T.ev(i.ops[0])), a, None, i.where(), None),)
        return x

    def ex(x, t, T, rv):
        tr = T.trace()
        mine = any(k[0] == 'eq' and k[1][0] in ('ld', 'load') and k[2][0] in ('ld', 'load') and
                   nodest(k[1])[1][3:] == nodest(k[2])[1][3:] == ('loop_id',) and v for k, v in T.F.items())
        writes = [e for e in x if e[0] != 'idx']
        if not mine:
            R.check(not x, fn, t.where(), '%s: the timeout of a descriptor of another loop is changed' % what, what + ' foreign', tr)
            return
        want = []
        cur = [v for a, v in T.K.items() if a[0] == 'fld' and a[3] == 'timeout_idx']
        cur = cur[-1] if cur else ('int', UNUSED)
        k = 0

        def take(vec, kind, mask, slot):
            """the next write to the wheel is this one"""
            for n, e in enumerate(writes):
                if e[0] == vec and e[3] == (kind, mask) and slot(e[1]) and e[2] is not None:
                    aff = [y for y in e[2][0] if y[0] == 'aff']
                    d = BIT if vec == 'vec' else BIT * BIT
                    if len(e[2][0]) == len(aff) == 1 and aff[0] == ('aff', 256 // d, 'fd', aff[0][3]) and \
                            aff[0][3] + e[2][1] == c // d or not e[2][0] and 256 // d == 0:
                        del writes[n]
                        return e, n
            return None, None
        isold = lambda s: s is not None and isload(s, 'timeout_idx')
        if used:
            e, n = take('vec', 'clear', bit, isold)
            if e is None:
                R.bad(fn, t.where(), '%s: the bit of the old timeout is not cleared' % what, tr)
                return
            zero = T.null(e[5])
            if zero is None:
                zero = T.null(strip(e[5]))
            v, n2 = take('vec_of_vec', 'clear', vbit, isold)
            R.check(zero is not None and zero == (v is not None), fn, e[4],
                    '%s: the summary bit is not cleared exactly when the last bit of its word is' % what, what + ' summary', tr)
            if n:
                R.bad(fn, e[4], '%s: the old bit is cleared after the new one is set' % what, tr)
            if not secs:
                R.check(cur in (('int', UNUSED), ('int', -1)), fn, t.where(),
                        '%s: the descriptor still refers to a slot' % what, what + ' idx', tr)
        if secs:
            new = lambda s: s is not None and strip(s) == strip(cur) or s is not None and strip(s)[0] == 'bin' and \
                nodest(strip(s)) == nodest(strip(cur) or ('int', 0))
            e, n = take('vec', 'set', bit, new)
            v, n2 = take('vec_of_vec', 'set', vbit, new)
            if not R.check(e is not None and v is not None, fn, t.where(),
                           '%s: the bit of the descriptor is not set in the slot it refers to, or not in the summary' % what,
                           what + ' set', tr):
                return
            s = strip(cur)
            ok = s is not None and s[0] == 'bin' and (s[1] in ('urem', 'srem') and s[3] == ('int', SLOTS) or
                                                      s[1] == 'and' and s[3] == ('int', SLOTS - 1))
            D = None
            if ok:
                l, cst = lin(s[2])
                b = [y for y in l if isload(y, 'base_idx') and l[y] == 1]
                ok = len(b) == 1
                if ok:
                    l = dict(l)
                    del l[b[0]]
                    D = (l, cst)
            if not R.check(ok, fn, t.where(), '%s: the slot is not counted from the current one around the wheel' % what,
                           what + ' slot', tr):
                return
            l, cst = D
            if not l:
                far = [y for y in T.F if y[0] == 'lt' and y[3] == ('int', SLOTS) and delta(y[2]) and not T.F[y]]
                R.check(cst == SLOTS - 1 and far, fn, t.where(),
                        '%s: a fixed slot is used for a timeout that is not beyond the wheel' % what, what + ' far', tr)
            else:
                y = list(l)[0]
                near = T.holds(('cmp', 'ult', y, ('int', SLOTS)))
                R.check(len(l) == 1 and l[y] == 1 and cst == 0 and delta(y) and near is True, fn, t.where(),
                        '%s: the slot is not (now + timeout - start of the current slot) / resolution, below the size of the wheel'
                        % what, what + ' near', tr)
        if writes:
            R.bad(fn, writes[0][4], '%s: other bits of the wheel are changed' % what, tr)
    Track(fn, step=step, edge=edge, exit=ex, init=init, args={0: fd} if secs else {0: fd, 1: 0}, stable=STABLE_F).run()


def delta(e):
    """(now + secs - base_time) / resolution"""
    e = strip(e)
    if e[0] != 'bin' or e[1] not in ('sdiv', 'udiv') or not isload(e[3], 'resolution'):
        return False
    l, c = lin(e[2])
    k = sorted((v, 'secs' if y == ('arg', 1) else y[1][3] if y[0] in ('ld', 'load') else '?') for y, v in l.items())
    return c == 0 and k == [(-1, 'base_time'), (1, 'now'), (1, 'secs')]


# ------------------------------------------------------------ firing
def firers(m):
    """(function, call) where a descriptor's callback is told about a timeout"""
    for f in funcs(m):
        for i in f.instrs():
            if i.op == 'call' and i.attr['name'] is None and len(i.ops) == 3 and i.ops[1] == ('int', 4):
                c = f.ex(i.attr['callee'])
                if mentions(c, lambda y: y[0] == 'fld' and y[3] == 'callback'):
                    yield f, i


def fire(R):
    R.rule('fire', TEXT['fire'])
    m = R.prog.std()
    fs = list(firers(m))
    if not fs:
        raise AnalysisBroken('nothing reports a timeout')
    for fn, call in fs:
        R.saw(fn)
        due(R, fn, call)
        scan(R, fn, call)


def due(R, fn, call):
    """facts and record state at the call; slots advance by whole steps"""
    dom = dominators(fn)
    loops = enclosing(fn, call.blk.name)
    head = loops[-1].h if loops else None

    def stepped(T, f):
        """the loop's field f as this round leaves it, if it was written"""
        for a, v in T.K.items():
            if a[0] == 'fld' and a[3] == f and not (v[0] == 'ld' and v[1] == a):
                return strip(v)
        return None

    def nextslot(T, v):
        if v is None:
            return False
        if v[0] == 'bin' and (v[1] in ('urem', 'srem') and v[3] == ('int', SLOTS) or v[1] == 'and' and v[3] == ('int', SLOTS - 1)):
            l, c = lin(v[2])
            return c == 1 and list(l.values()) == [1] and isload(list(l)[0], 'base_idx')
        last = [p for k, p in T.F.items() if k[0] == 'eq' and k[2][0] == 'int' and
                (isload(k[1], 'base_idx') and k[2][1] == SLOTS - 1 or mentions(k[1], lambda y: isload(y, 'base_idx')) and k[2][1] == SLOTS)]
        last += [not p for k, p in T.F.items() if k[0] == 'lt' and k[3][0] == 'int' and
                 (isload(k[2], 'base_idx') and k[3][1] == SLOTS - 1 or
                  k[2][0] == 'bin' and mentions(k[2], lambda y: isload(y, 'base_idx')) and k[3][1] == SLOTS)]
        if v == ('int', 0):
            return True in last
        l, c = lin(v)
        return c == 1 and list(l.values()) == [1] and isload(list(l)[0], 'base_idx') and False in last

    def step(x, i, T):
        if i.blk.name == head and i is fn.blocks[head].ins[0]:
            if x:
                v, w = stepped(T, 'base_idx'), stepped(T, 'base_time')
                tr = T.trace()
                R.check((v is None) == (w is None) and v is not None, fn, i.where(),
                        'a round goes on without moving both the index and the time of the current slot by one step', 'slot step', tr)
                R.check(nextslot(T, v), fn, i.where(), 'the next slot is not the following one around the wheel', 'next slot', tr)
                l, c = lin(w or ('int', 0))
                R.check(c == 0 and sorted((n, fieldname(y)) for y, n in l.items()) == [(1, 'base_time'), (1, 'resolution')], fn,
                        i.where(), 'the start of the current slot does not move by the resolution', 'next time', tr)
            x = True
            T.K = {a: v for a, v in T.K.items() if a[0] != 'fld' or a[3] not in ('base_idx', 'base_time')}
        if i is call:
            tr = T.trace()
            fdv = strip(T.ev(i.ops[0]))
            cal = T.ev(i.attr['callee'])
            ok = cal[0] == 'ld' and cal[1][0] == 'fld' and cal[1][3] == 'callback' and cal[1][1][0] == 'idx' and \
                nodest(strip(cal[1][1][2])) == nodest(fdv)
            R.check(ok, fn, i.where(), 'the callback called is not that of the descriptor it is told', 'callback', tr)
            rec = cal[1][1] if cal[0] == 'ld' and cal[1][0] == 'fld' else None
            if rec is not None:
                a = T.ev(i.ops[2])
                R.check(a[0] == 'ld' and a[1][0] == 'fld' and a[1][3] == 'cb_arg' and nodest(a[1][1]) == nodest(rec), fn, i.where(),
                        'the callback does not get the argument of its descriptor', 'argument', tr)
                v = T.mem(('fld', rec, None, 'timeout_idx'))
                R.check(v in (('int', UNUSED), ('int', -1)), fn, i.where(),
                        'the callback is called while its descriptor still refers to the slot: a new timeout it sets would be lost or undone',
                        'rearm', tr)
                R.check(samefield(T, 'loop_id', 'loop_id', rec), fn, i.where(), 'the callback of a descriptor that was removed by an earlier '
                        'callback is called (its loop is not compared)', 'removed', tr)
                R.check(samefield(T, 'timeout_idx', 'base_idx', rec), fn, i.where(), 'the callback of a descriptor that was removed, '
                        'or given a new timeout, by an earlier callback is called (its slot is not compared)', 'rearmed', tr)
            ok = False
            for k, p in T.F.items():
                if k[0] == 'lt' and not p:
                    # not (now - resolution < base_time), in any arrangement
                    la, ca = lin(k[2])
                    lb, cb = lin(k[3])
                    d = {}
                    for y, n in la.items():
                        d[fieldname(y)] = d.get(fieldname(y), 0) + n
                    for y, n in lb.items():
                        d[fieldname(y)] = d.get(fieldname(y), 0) - n
                    ok = ok or {y: n for y, n in d.items() if n} == {'now': 1, 'resolution': -1, 'base_time': -1} and ca - cb <= 0
                elif k[0] == 'lt' and p:
                    # base_time < now - resolution (+ 1)
                    la, ca = lin(k[2])
                    lb, cb = lin(k[3])
                    d = {}
                    for y, n in lb.items():
                        d[fieldname(y)] = d.get(fieldname(y), 0) + n
                    for y, n in la.items():
                        d[fieldname(y)] = d.get(fieldname(y), 0) - n
                    ok = ok or {y: n for y, n in d.items() if n} == {'now': 1, 'resolution': -1, 'base_time': -1} and cb - ca <= 1
            R.check(ok, fn, i.where(), 'a slot is fired before it has passed', 'due', tr)
        return x
    Track(fn, step=step, x0=False, stable=STABLE_F, keep=lambda n, a: a[0] == 'fld' and a[3] in ('vec', 'vec_of_vec')).run()


def fieldname(y):
    y = strip(y)
    return y[1][3] if y[0] in ('ld', 'load') and y[1][0] == 'fld' else show(y)


def samefield(T, f, h, rec):
    """a test on this path says that field f of the record equals the loop's field h"""
    for k, p in T.F.items():
        if k[0] == 'eq' and p:
            for a, b in ((strip(k[1]), strip(k[2])), (strip(k[2]), strip(k[1]))):
                if isload(a, f) and isload(b, h) and nodest(a[1][1]) == nodest(rec) and nodest(b[1][1]) != nodest(rec):
                    return True
    return False


def enclosing(fn, blk):
    """loops around a block, innermost first"""
    dom = dominators(fn)
    hs = [b.name for b in fn.order if any(b.name in dom[p] for p in b.pred)]
    out = [Loop(fn, h) for h in hs]
    out = [l for l in out if blk in l.body or l.h in dom[blk] and bitof(fn, l, blk, dom) is not None]
    return sorted(out, key=lambda l: len(l.body))


def shifted(fn, L):
    """header values that are shifted left by one bit every round: phi -> start"""
    out = {}
    for i in fn.blocks[L.h].ins:
        if i.op != 'phi':
            break
        start = step = None
        for v, p in i.attr['inc']:
            e = fn.ex(v)
            if p in L.body:
                e = strip(e)
                s = e == ('bin', 'shl', ('phi', i.dest), ('int', 1)) or e == ('bin', 'mul', ('phi', i.dest), ('int', 2)) or \
                    e == ('bin', 'add', ('phi', i.dest), ('phi', i.dest))
                step = s if step is None else step and s
            else:
                start = e
        if step and start is not None:
            out[i.dest] = start
    return out


def bitof(fn, L, blk, dom):
    """the word whose bit decides that blk is reached in a round of L, and the position of that bit from the top as
    a linear form in the rounds: (address expression of the word, terms, constant), or None when the form is not known"""
    sh = shifted(fn, L)
    for b in fn.order:
        t = b.term
        if b.name not in L.body or t.op != 'br' or len(t.attr['targets']) != 2 or b.name not in dom[blk]:
            continue
        for tgt, pol in zip(t.attr['targets'], (True, False)):
            if tgt not in dom[blk] or b.name == blk or len(fn.blocks[tgt].pred) != 1:
                continue
            k, p = literal(S(fn.ex(t.ops[0])), pol)
            if isinstance(k, bool):
                continue
            if k[0] == 'lt' and k[1] == 's' and p and k[3] == ('int', 0):
                v = strip(k[2])
                if v[0] == 'phi' and v[1] in sh:
                    w = strip(sh[v[1]])
                    if w[0] in ('load', 'ld'):
                        return w[1], ({('T',): 1}, 0)
            if k[0] == 'eq' and k[2] == ('int', 0) and not p or k[0] == 'eq' and k[2][0] == 'int' and k[2][1] and p:
                v = strip(k[1])
                if v[0] == 'bin' and v[1] == 'and':
                    for w, q in ((strip(v[2]), v[3]), (strip(v[3]), v[2])):
                        if w[0] == 'phi' and w[1] in sh and q[0] == 'int' and q[1] & 0xffff == 0x8000:
                            z = strip(sh[w[1]])
                            if z[0] in ('load', 'ld'):
                                return z[1], ({('T',): 1}, 0)
                        if w[0] in ('load', 'ld') and q[0] == 'bin' and q[1] in ('lshr', 'ashr') and q[2][0] == 'int' and \
                                q[2][1] & 0xffffffff == 0x8000:
                            return w[1], L.inrounds(q[3])
                        if w[0] in ('load', 'ld') and q[0] == 'bin' and q[1] == 'shl' and q[2] == ('int', 1):
                            l, c = L.inrounds(q[3])
                            return w[1], ({y: -n for y, n in l.items()}, 15 - c)
    return None


def scan(R, fn, call):
    """the bits of the summary and of its words are gone through, each for its own descriptor, and cleared"""
    dom = dominators(fn)
    loops = enclosing(fn, call.blk.name)
    if len(loops) < 4:
        return
    k = fn.ex(call.ops[0])
    at = call.blk.name
    for L, vec, size in ((loops[0], 'vec', 'timeout_vec_size'), (loops[1], 'vec_of_vec', 'timeout_vec_of_vec_size')):
        b = bitof(fn, L, at, dom)
        if b is None:
            return                              # another way of going through the bits: not decided
        addr, pos = b
        t, c = flat(S(addr))
        base = [y for y in t if y[0] == 'load' and y[1][0] == 'fld' and y[1][3] == vec]
        off = [y for y in t if y not in base and mentions(y, lambda z: z[0] == 'fld' and z[3] == size)]
        if not R.check(len(base) == 1 and len(off) <= 1, fn, call.where(),
                       'the bits gone through are not those of the current slot', vec + ' word'):
            return
        if off:
            R.check(mentions(off[0], lambda z: z[0] == 'fld' and z[3] == 'base_idx'), fn, call.where(),
                    'the words gone through are not those of the current slot', vec + ' slot')
        rest = [y for y in t if y not in base and y not in off]
        j = ('int', c)
        for y in rest:
            j = ('bin', 'add', y, j)
        # k == 16 * j + position
        lk, ck = L.inrounds(k)
        lj, cj = L.inrounds(('bin', 'mul', j, ('int', BIT)))
        d = dict(lk)
        for src in (lj, pos[0]):
            for y, n in src.items():
                d[y] = d.get(y, 0) - n
        d = {y: n for y, n in d.items() if n}
        R.check(not d and ck - cj - pos[1] == 0, fn, call.where(),
                'bit b of word j of the %s does not stand for number 16*j + b' % ('slot' if vec == 'vec' else 'summary'), vec + ' number')
        # the scan ends when no bit is left, or after 16 bits; or for good
        for tt, pol, tgt in L.exits():
            if leaves(fn, tgt, loops):
                continue
            kk, p = literal(S(fn.ex(tt.ops[0])), pol) if tt.op == 'br' else (None, None)
            done = False
            if kk is not None and not isinstance(kk, bool):
                v = strip(kk[1]) if kk[0] == 'eq' else None
                done = kk[0] == 'eq' and kk[2] == ('int', 0) and p and v[0] == 'phi' and v[1] in shifted(fn, L)
                if not done:
                    for st in ({}, ):
                        done = L.stays_while(tt, pol, (st, BIT))
            R.check(done, fn, tt.where(), 'the scan of a word can stop before all of its bits were looked at', vec + ' scan')
        # what was gone through is cleared
        cleared(R, fn, L, addr, vec, loops)
        # outward
        k = j
        at = wordblock(fn, L, at)
    L = loops[2]
    for tt, pol, tgt in L.exits():
        if leaves(fn, tgt, loops):
            continue
        ok = any(L.stays_while(tt, pol, ({y: 1}, 0)) for y in sizes(fn))
        R.check(ok, fn, tt.where(), 'not every word of the summary is looked at', 'summary scan')
    lk, ck = L.inrounds(k)
    R.check(lk == {('T',): 1} and ck == 0, fn, call.where(), 'the summary is not gone through word by word from the first', 'summary words')


def sizes(fn):
    out = set()
    for i in fn.instrs():
        if i.op == 'load':
            e = S(fn.ex(('ssa', i.dest)))
            if e[0] == 'load' and e[1][0] == 'fld' and e[1][3] == 'timeout_vec_of_vec_size':
                out.add(e)
    return out


def wordblock(fn, L, at):
    """a block outside of L, dominating it, in the next loop out"""
    return [p for p in fn.blocks[L.h].pred if p not in L.body][0]


def leaves(fn, tgt, loops):
    """from this block the function returns without another round of any loop"""
    seen, st = set(), [tgt]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(b == l.h for l in loops):
            return False
        st += fn.blocks[b].succ
    return True


def cleared(R, fn, L, addr, vec, loops):
    """every way out of L that goes on passes a store of 0 to the word before the next round of an outer loop"""
    want = S(addr)
    outer = {l.h for l in loops if l.h != L.h and len(l.body) > len(L.body)}
    early = any(i.op == 'store' and S(fn.ex(i.ops[1])) == want and masked_any(fn, i) for b in L.body for i in fn.blocks[b].ins)
    if early:
        return
    for tt, pol, tgt in L.exits():
        if leaves(fn, tgt, loops):
            continue
        st, seen, bad = [tgt], set(), False
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b in outer:
                bad = True
                break
            if any(i.op == 'store' and i.ops[0] == ('int', 0) and same_word(S(fn.ex(i.ops[1])), want) for i in fn.blocks[b].ins):
                continue
            if fn.blocks[b].term.op == 'ret':
                continue
            st += fn.blocks[b].succ
        if bad and before(fn, L, want):
            bad = False
        R.check(not bad, fn, tt.where(), 'a word that was gone through keeps its bits: its descriptors fire again a turn of the wheel later',
                vec + ' clear')


def same_word(a, b):
    ta, ca = flat(a)
    tb, cb = flat(b)
    return ca == cb and sorted(map(str, ta)) == sorted(map(str, tb))


def masked_any(fn, i):
    v = fn.ex(i.ops[0])
    v = strip(v)
    return v[0] == 'bin' and v[1] in ('and', 'xor')


def before(fn, L, want):
    """the word is set to 0 between its load and the loop"""
    for b in fn.order:
        if b.name in L.body:
            continue
        ld = False
        for i in b.ins:
            if i.op == 'load' and same_word(S(fn.ex(i.ops[0])), want):
                ld = True
            if ld and i.op == 'store' and i.ops[0] == ('int', 0) and same_word(S(fn.ex(i.ops[1])), want):
                return b.name in dominators(fn)[L.h]
    return False


# ------------------------------------------------------------ each turn looks at the wheel, with the time after the wait
def turn(R):
    R.rule('turn', TEXT['turn'])
    m = R.prog.std()
    fn = m.fn('events_once')
    R.saw(fn)
    hn = {f.name for f, _ in firers(m)}

    waits = lambda v: S(v) == ('arg', 1) or mentions(v, lambda y: y == ('arg', 1)) or v[0] == 'phi'

    def edge(x, k, p, i, T):
        # a wait of no time leaves the clock as it is
        if k[0] == 'eq' and k[2] == ('int', 0) and waits(k[1]):
            return x[:3] + (p,)
        return x

    def step(x, i, T):
        polled, timed, fired, zero = x
        n = name(i)
        if n == 'events_poll_once_internal':
            return True, False, fired, zero
        if n in hn:
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'the timeouts of another loop are looked at', 'loop', T.trace())
            R.check(not polled or timed or zero, fn, i.where(), 'timeouts are looked at with the time from before the wait', 'now',
                    T.trace())
            return polled, timed, True, zero
        if i.op == 'store':
            a = T.ev(i.ops[1])
            if a[0] == 'fld' and a[3] == 'now':
                v = S(T.ev(i.ops[0]))
                R.check(v[0] == 'call' and v[1] == 'time', fn, i.where(), "the loop's time is not the clock's", 'clock', T.trace())
                timed = True
        return polled, timed, fired, zero

    def ex(x, t, T, rv):
        if rv is not None and rv[0] == 'int' and rv[1] < 0:
            return
        R.check(x[2], fn, t.where(), 'a turn of the loop ends without looking at the timeouts', 'turn', T.trace())
    if fn.name not in hn:
        Flow(fn, step, edge, ex, (False, False, False, False)).run()


# ------------------------------------------------------------ space and start
def space(R):
    R.rule('space', TEXT['space'])
    m = R.prog.std()
    fn = m.fn('events_init_loop_internal')
    R.saw(fn)
    for mt in list(range(1, 700)) + [3600, 86400, 1 << 20]:
        def step(x, i, T):
            if name(i) in ('events_memalign', 'events_malloc', 'events_calloc', 'malloc', 'calloc') and x[0] is None:
                x = (i.dest, tuple(T.ev(o) for o in i.ops)) + x[2:]
            return x

        def ex(x, t, T, rv):
            if rv is not None and rv[0] == 'int' and rv[1] != 0:
                return
            tr = T.trace()
            g = lambda f: next((v for a, v in T.K.items() if a[0] == 'fld' and a[3] == f), None)
            r = g('resolution')
            R.check(r is not None and r[0] == 'int' and (r[1] - 1) * SLOTS < mt <= r[1] * SLOTS, fn, t.where(),
                    'longest timeout %d s: the slots do not cover it, or are longer than needed' % mt, 'resolution', tr)
            R.check(g('base_idx') == ('int', 0), fn, t.where(), 'a new wheel does not start at its first slot', 'start', tr)
            b = g('base_time')
            R.check(b is not None and b[0] == 'call' and b[1] == 'time', fn, t.where(), 'a new wheel does not start now', 'start time', tr)
            vv, v = g('vec_of_vec'), g('vec')
            ok = vv is not None and vv[0] == 'call' and vv[2] == x[0]
            tv, cv = flat(v) if v is not None else ([], 0)
            sz = lambda y, f: y == ('bin', 'mul', ('load', ('fld', ('g', 'sys_event'), None, f)), ('int', SLOTS))
            ok = ok and cv == 0 and len(tv) == 2 and vv in tv and any(szof(y, 'timeout_vec_of_vec_size') for y in tv)
            R.check(ok, fn, t.where(), 'the words do not begin behind the summaries of all slots', 'layout', tr)
            if x[1]:
                l, c = lin(x[1][0])
                need = {'timeout_vec_size': 2 * SLOTS, 'timeout_vec_of_vec_size': 2 * SLOTS}
                have = {fieldname(y): n for y, n in l.items()}
                R.check(all(have.get(f, 0) >= n for f, n in need.items()), fn, t.where(),
                        'the space for the wheel is too small', 'space', tr)
        Track(fn, step=step, exit=ex, args={1: mt}, x0=(None, None), stable=STABLE_F,
              keep=lambda n, a: a[0] == 'fld' and a[3] in ('vec', 'vec_of_vec', 'base_idx', 'base_time', 'resolution')).run()
    # words and summaries of a slot
    fn = m.fn('events_init')
    R.saw(fn)
    pts = sorted({b + o for b in range(0, 2048, 128) for o in (0, 1, 2, 64, 127)})
    for c in pts:
        def ex(x, t, T, rv):
            if rv is None or rv[0] != 'int' or rv[1] != 0:
                return
            g = lambda f: next((v for a, v in T.K.items() if a[0] == 'fld' and a[3] == f), None)
            v, vv = g('timeout_vec_size'), g('timeout_vec_of_vec_size')
            if v is None and vv is None:
                return
            lim = lambda y: None if y is None else (y[1], y[3]) if y[0] == 'aff' else (0, y[1]) if y[0] == 'int' else None
            a, b = lim(v), lim(vv)
            ok = a is not None and a[0] * BIT >= 2048 and a[1] * BIT >= c
            R.check(ok, fn, t.where(), 'largest number of descriptors %d mod 2048: their bits do not fit the words of a slot' % c,
                    'words', T.trace())
            ok = ok and b is not None and b[0] * BIT >= a[0] and b[1] * BIT >= a[1]
            R.check(ok, fn, t.where(), 'largest number of descriptors %d mod 2048: the words do not fit the summary' % c,
                    'summaries', T.trace())
        Track(fn, exit=ex, args={0: ('aff', 2048, 'max', c)}, stable=STABLE_F[:1],
              keep=lambda n, a: a[0] == 'fld' and a[3] in ('max_fd', 'timeout_vec_size', 'timeout_vec_of_vec_size')).run()


def szof(y, f):
    if y[0] != 'bin':
        return False
    l, c = lin(y)
    return c == 0 and len(l) == 1 and list(l.values()) == [SLOTS] and fieldname(list(l)[0]) == f


# ------------------------------------------------------------ nobody else
def only(R):
    R.rule('only', TEXT['only'])
    m = R.prog.std()
    good = {f.name for f in armers(m)} | {f.name for f, _ in firers(m)}
    n = 0
    for f in funcs(m):
        for i in f.instrs():
            if i.op != 'store':
                continue
            a = f.ex(i.ops[1])
            if a[0] != 'fld' or a[3] not in ('timeout_idx', 'base_idx', 'base_time', 'resolution', 'vec', 'vec_of_vec'):
                continue
            n += 1
            R.saw(f)
            if a[3] == 'timeout_idx':
                fresh = f.ex(i.ops[0]) in (('int', UNUSED), ('int', -1)) and any(
                    j.op == 'store' and f.ex(j.ops[1])[0] == 'fld' and f.ex(j.ops[1])[3] == 'loop_id' for j in f.instrs())
                R.check(f.name in good or fresh, f, i.where(), "a descriptor's slot is changed without its bits", 'timeout_idx')
            else:
                start = f.name in good or any(j.op == 'store' and f.ex(j.ops[1])[0] == 'fld' and f.ex(j.ops[1])[3] == 'loop_id'
                                              for j in f.instrs()) or f.ex(i.ops[0]) == ('int', 0)
                R.check(start, f, i.where(), 'the wheel is changed elsewhere', a[3])
    if not n:
        raise AnalysisBroken('no writes of the timeout wheel found')


TEXT = {
    'arm': 'for every descriptor number (all residues modulo 256): setting a timeout clears the old bit, with its summary bit exactly '
           'when the word becomes empty, then sets the bit and the summary bit of the slot of now + timeout, at most the last one',
    'fire': 'a callback is told about a timeout only for a descriptor of the slot that has passed, still registered and still in '
            'that slot, with its own callback and argument, after it was taken out of the slot; every bit of the slot is looked at '
            'and cleared; slots advance one by one with their time',
    'turn': 'every turn of the loop that does not fail looks at the timeouts, with the time after the wait',
    'space': 'a new wheel has room for all descriptors and slots, covers the longest timeout, and starts now',
    'only': 'nothing else changes the wheel',
}
RULES = [arm, fire, turn, space, only]

"""P01: the per-worker task deque (push by the owner, take by the owner, steal by others)."""
from framework import *

D = 'events_deque_s'
STRONG = {'acquire': ('acquire', 'acq_rel', 'seq_cst'), 'release': ('release', 'acq_rel', 'seq_cst'),
          'seq_cst': ('seq_cst',)}


def cell(fn, addr):
    a = S(addr)
    if a[0] == 'fld' and a[2] == D and a[3] in ('top', 'bottom', 'array'):
        return a[3]
    if a[0] == 'idx' and a[1][0] == 'fld' and a[1][3] == 'buffer':
        return 'slot'
    return None


def classify(fn):
    def f(i, w):
        if i.op == 'load':
            c = cell(fn, w.rawval(i.ops[0]))
            if c:
                return ('ld', c, i.attr['order'], w.rawval(i.ops[0]), ('load', fn.ex(i.ops[0]), i.dest))
        elif i.op == 'store':
            c = cell(fn, w.rawval(i.ops[1]))
            if c:
                return ('st', c, i.attr['order'], w.rawval(i.ops[1]), w.rawval(i.ops[0]))
        elif i.op == 'cmpxchg':
            c = cell(fn, w.rawval(i.ops[0]))
            if c:
                return ('cas', c, i.attr['succ'], w.rawval(i.ops[1]), w.rawval(i.ops[2]), i.dest)
        elif i.op == 'atomicrmw':
            c = cell(fn, w.rawval(i.ops[0]))
            if c:
                return ('rmw', c, i.attr['order'], i.attr['rmw'], w.rawval(i.ops[1]))
        elif i.op == 'fence':
            return ('fence', i.attr['order'])
        elif i.op == 'call':
            n = i.attr['name']
            if n == 'deque_resize':
                return ('resize',)
            if n in ('events_free', 'events_realloc', 'rpfree', 'free', 'rp_free'):
                return ('free', w.val(i.ops[0]))
        return None
    return f


def edge(key, pol, i, w):
    return ('br', key, pol)


def val_is(e, load, k):
    t, c = linr(e)
    return c == k and t == {load: 1}


def lit_about(ev, *fields):
    """branch literals whose difference only involves the given deque fields: (kind, sign, coef.., const, pol)"""
    out = []
    for n, (t, i) in enumerate(ev):
        if t[0] != 'br' or t[1][0] not in ('eq', 'lt'):
            continue
        k, sg, lf, c = litlin(t[1])
        co = {}
        ok = True
        for x, m in lf.items():
            if x[0] == 'load' and x[1][0] == 'fld' and x[1][2] == D and x[1][3] in fields:
                co[x[1][3]] = m
            elif x[0] == 'load' and x[1][0] == 'fld' and x[1][3] == 'size' and 'size' in fields:
                co['size'] = m
            else:
                ok = False
        if ok and co:
            out.append((n, k, sg, co, c, t[2], i))
    return out


def nonempty(l):
    """literal l (on top/bottom as loaded) says top < bottom. Returns True/False/None"""
    n, k, sg, co, c, pol, i = l
    if k != 'lt':
        return None
    if co == {'top': 1, 'bottom': -1} and c == 0:      # t - B < 0
        return pol
    if co == {'top': -1, 'bottom': 1} and c == -1:     # B - 1 - t < 0
        return (not pol) if sg == 's' else None
    return None


def wraps(l):
    """compares bottom-1 unsigned: with an empty deque at index 0 bottom-1 wraps"""
    n, k, sg, co, c, pol, i = l
    return k == 'lt' and sg == 'u' and co == {'top': -1, 'bottom': 1} and c == -1


def ret_kind(r):
    if r is None:
        return None
    r = S(r)
    if r[0] == 'load' and r[1][0] == 'idx':
        return 'slot'
    if r[0] == 'load' and r[1] == ('g', 'TASK_EMPTY_T'):
        return 'empty'
    if r[0] == 'load' and r[1] == ('g', 'TASK_ABORT_T'):
        return 'abort'
    if r == ('int', 0x300):
        return 'empty'
    if r == ('int', 0x400):
        return 'abort'
    return 'other'


def slot_ok(fn, addr, index_load, arr_load=None):
    """addr = array->buffer[index % array->size] with both from one array value"""
    if addr[0] != 'idx':
        return 'not an array slot'
    base, ix = addr[1], addr[2]
    if base[0] != 'fld' or base[3] != 'buffer':
        return 'not an array slot'
    arr = base[1]
    if ix[0] != 'bin' or ix[1] not in ('urem', 'and'):
        return 'slot index is not reduced to the array size'
    if S(ix[2]) != S(index_load) and not (linr(ix[2])[0] == linr(index_load)[0] and linr(ix[2])[1] == linr(index_load)[1]):
        return 'slot index is not the element index'
    m = ix[3]
    if ix[1] == 'urem':
        if not (m[0] == 'load' and m[1][0] == 'fld' and m[1][3] == 'size' and m[1][1] == arr):
            return 'slot index is reduced by something other than the same array\'s size'
    elif not (m[0] == 'bin' and lin(m)[1] == -1 and any(x[0] == 'load' and x[1][0] == 'fld' and x[1][3] == 'size'
                                                         for x in lin(m)[0])):
        return 'slot index mask is not size-1'
    if arr_load is not None and arr != arr_load:
        return 'slot taken from a stale array'
    return None


def idx(ev, pred, start=0):
    for n in range(start, len(ev)):
        if pred(ev[n][0]):
            return n
    return -1


def take(R):
    R.rule('take', 'owner take: bottom reserved, seq_cst fence, then top read; non-wrapping emptiness test; last '
                   'element only by a seq_cst CAS on top; bottom restored when nothing is kept')
    m = R.prog.view(lambda n: False, key='p01t')
    fn = m.fn('deque_take')
    R.saw(fn)
    P = path_summaries(fn, classify(fn), edge)
    n = 0
    for ev, r, tr in P:
        n += 1
        where = '%s' % (ev[-1][1].where() if ev else fn.name)

        def bad(msg, at=None):
            R.bad(fn, (at or ev[-1][1]).where() if ev else fn.name, msg, tr)
        ib = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'bottom')
        sb = idx(ev, lambda t: t[0] == 'st' and t[1] == 'bottom')
        if ib < 0 or sb < 0 or not val_is(ev[sb][0][4], ev[ib][0][4], -1):
            bad('bottom is not reserved (stored as bottom-1) before the element is examined')
            continue
        B = ev[ib][0][4]
        fe = idx(ev, lambda t: t[0] == 'fence' and t[1] == 'seq_cst', sb)
        it = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'top', fe if fe >= 0 else 0)
        if fe < 0:
            bad('no seq_cst fence after bottom is reserved', ev[sb][1])
            continue
        if it < 0:
            bad('top is not read after the fence that follows the reservation of bottom', ev[fe][1])
            continue
        T = ev[it][0][4]
        lits = lit_about(ev, 'top', 'bottom')
        wr = [l for l in lits if wraps(l)]
        if wr:
            bad('emptiness test compares bottom-1 unsigned: it wraps on an empty deque', wr[0][6])
            continue
        ne = [nonempty(l) for l in lits if nonempty(l) is not None and l[0] > it]
        eq = [l[5] for l in lits if l[1] == 'eq' and l[3] in ({'top': 1, 'bottom': -1}, {'top': -1, 'bottom': 1})
              and l[4] in (1, -1) and l[0] > it]
        # top - (bottom-1) == 0  <=>  top - bottom + 1 == 0
        cas = [t for t, _ in ev if t[0] == 'cas' and t[1] == 'top']
        last = [t for t, _ in ev if t[0] == 'st' and t[1] == 'bottom'][-1]
        restored = val_is(last[4], B, 0)
        k = ret_kind(r)
        won = [not t[2] for t, _ in ev if t[0] == 'br' and t[1][0] == 'eq' and t[1][2] == ('int', 0)
               and mentions(t[1], lambda x: x[0] == 'cas')]
        if not ne:
            bad('the element is examined without an emptiness test on the freshly read top')
            continue
        if ne[-1] is False:
            if k != 'empty':
                bad('an empty deque yields something other than the empty marker')
            elif not restored:
                bad('bottom is not restored on an empty deque')
            elif cas:
                bad('top is advanced on an empty deque')
            else:
                R.ok('deque_take: empty path')
            continue
        if not eq:
            bad('no test whether this is the last element (a thief may take it too)')
            continue
        if eq[-1] is False:
            if k != 'slot':
                bad('a non-empty deque yields no element')
            elif cas:
                bad('top is advanced for an element taken at the bottom')
            elif not val_is(last[4], B, -1):
                bad('bottom is not left reserved for a taken element')
            else:
                e = slot_ok(fn, S_raw(r), ('bin', 'add', B, ('int', -1)))
                if e:
                    bad(e)
                else:
                    R.ok('deque_take: more than one element')
            continue
        # last element
        if len(cas) != 1 or cas[0][2] != 'seq_cst' or not val_is(cas[0][4], T, 1) or cas[0][3] != T:
            bad('the last element is not claimed by a seq_cst compare-and-swap of top from its read value to +1')
            continue
        if not won:
            bad('the outcome of the race for the last element is ignored')
            continue
        if not restored:
            bad('bottom is not restored after the last element')
            continue
        if won[-1] and k != 'slot':
            bad('the last element is lost although the race was won')
        elif not won[-1] and k != 'empty':
            bad('the last element is returned although a thief won it')
        else:
            R.ok('deque_take: last element, race %s' % ('won' if won[-1] else 'lost'))
    R.floor(n, 4, 'paths of deque_take')


def S_raw(r):
    return r[1] if r and r[0] == 'load' else ('undef',)


def push(R):
    R.rule('push', 'owner push: room is ensured against an acquire read of top, the slot is written in the current '
                   'array, a release fence (or release store) orders it before bottom is raised by one')
    m = R.prog.view(lambda n: False, key='p01t')
    fn = m.fn('deque_push')
    R.saw(fn)
    P = path_summaries(fn, classify(fn), edge)
    n = 0
    for ev, r, tr in P:
        n += 1

        def bad(msg, at=None):
            R.bad(fn, (at or ev[-1][1]).where() if ev else fn.name, msg, tr)
        ib = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'bottom')
        it = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'top')
        ss = [k for k, (t, _) in enumerate(ev) if t[0] == 'st' and t[1] == 'slot']
        sb = [k for k, (t, _) in enumerate(ev) if t[0] in ('st', 'rmw') and t[1] == 'bottom']
        if ib < 0 or len(ss) != 1 or len(sb) != 1:
            bad('a push must write exactly one slot and raise bottom exactly once (slots %d, bottom %d)' % (len(ss), len(sb)))
            continue
        B = ev[ib][0][4]
        st, sbt = ev[ss[0]][0], ev[sb[0]][0]
        if it < 0 or ev[it][0][2] not in STRONG['acquire']:
            bad('top is not read with acquire before the slot is reused')
            continue
        if it > ss[0]:
            bad('top is read only after the slot was overwritten')
            continue
        full = None
        for l in lit_about(ev, 'top', 'bottom', 'size'):
            nn, k, sg, co, c, pol, i = l
            if nn > ss[0] or k != 'lt':
                continue
            if co == {'bottom': -1, 'top': 1, 'size': 1} and c == -1:   # size-1 < b-t
                full = pol
            elif co == {'bottom': 1, 'top': -1, 'size': -1} and c == 0:  # b-t < size
                full = not pol
            elif co == {'bottom': -1, 'top': 1, 'size': 1} and c == 0:   # size < b - t   (one too late)
                full = 'late'
        rz = [k for k, (t, _) in enumerate(ev) if t[0] == 'resize']
        if full is None or full == 'late':
            bad('the slot is written without testing that fewer than `size` elements are present')
            continue
        if full and not rz:
            bad('the array is full and not grown before the slot is written')
            continue
        arr = None
        for k, (t, i) in enumerate(ev):
            if t[0] == 'ld' and t[1] == 'array' and (not rz or k > rz[-1]) and k < ss[0]:
                arr = t[4]
        if arr is None:
            bad('the array is not re-read after it was grown')
            continue
        e = slot_ok(fn, st[3], B)
        if not e and st[3][1][1] != arr and rz:
            e = 'the slot is written in the array from before it was grown'
        if e:
            bad(e, ev[ss[0]][1])
            continue
        if S(st[4]) != ('arg', 1):
            bad('the pushed element is not what is stored', ev[ss[0]][1])
            continue
        if sb[0] < ss[0]:
            bad('bottom is raised before the element is in its slot', ev[sb[0]][1])
            continue
        rel = sbt[2] in STRONG['release'] or any(t[0] == 'fence' and t[1] in STRONG['release']
                                                 for t, _ in ev[ss[0] + 1:sb[0]])
        if not rel:
            bad('nothing orders the slot write before bottom is raised (release missing)', ev[sb[0]][1])
            continue
        if sbt[0] == 'st':
            good = val_is(sbt[4], B, 1)
        else:
            good = sbt[3] == 'add' and sbt[4] == ('int', 1)
        if not good:
            bad('bottom is not raised by exactly one', ev[sb[0]][1])
            continue
        R.ok('deque_push: %s' % ('grown' if rz else 'room'))
    R.floor(n, 2, 'paths of deque_push')


def steal(R):
    R.rule('steal', 'thief: acquire top, seq_cst fence, acquire bottom, element read before a seq_cst CAS on top, '
                    'handed out only if the CAS succeeded')
    m = R.prog.view(lambda n: False, key='p01t')
    fn = m.fn('deque_steal')
    R.saw(fn)
    P = path_summaries(fn, classify(fn), edge)
    n = 0
    for ev, r, tr in P:
        n += 1

        def bad(msg, at=None):
            R.bad(fn, (at or ev[-1][1]).where() if ev else fn.name, msg, tr)
        it = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'top')
        if it < 0 or ev[it][0][2] not in STRONG['acquire']:
            bad('top is not read with acquire')
            continue
        T = ev[it][0][4]
        fe = idx(ev, lambda t: t[0] == 'fence' and t[1] == 'seq_cst', it)
        ib = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'bottom')
        if fe < 0 or ib < 0 or ib < fe:
            bad('bottom is not read after a seq_cst fence that follows the read of top', ev[max(ib, 0)][1])
            continue
        if ev[ib][0][2] not in STRONG['acquire']:
            bad('bottom is not read with acquire', ev[ib][1])
            continue
        if any(t[0] == 'st' and t[1] in ('top', 'bottom', 'slot') for t, _ in ev):
            bad('a thief stores to the deque')
            continue
        ne = [nonempty(l) for l in lit_about(ev, 'top', 'bottom') if nonempty(l) is not None and l[0] > ib]
        if any(wraps(l) for l in lit_about(ev, 'top', 'bottom')):
            bad('emptiness test compares bottom-1 unsigned: it wraps on an empty deque')
            continue
        k = ret_kind(r)
        cas = [(q, t) for q, (t, _) in enumerate(ev) if t[0] == 'cas' and t[1] == 'top']
        if not ne:
            bad('the element is examined without an emptiness test')
            continue
        if ne[-1] is False:
            if k != 'empty' or cas:
                bad('an empty deque is not reported as empty')
            else:
                R.ok('deque_steal: empty path')
            continue
        ia = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'array')
        isl = idx(ev, lambda t: t[0] == 'ld' and t[1] == 'slot')
        if not cas or cas[0][1][2] != 'seq_cst' or cas[0][1][3] != T or not val_is(cas[0][1][4], T, 1) or len(cas) != 1:
            bad('the element is not claimed by one seq_cst compare-and-swap of top from its read value to +1')
            continue
        if isl < 0 or isl > cas[0][0]:
            bad('the element is not read before top is advanced (the slot may be reused)')
            continue
        if ia < 0 or ev[ia][0][2] not in STRONG['acquire']:
            bad('the array is not read with consume/acquire', ev[max(ia, 0)][1])
            continue
        if ia < ib:
            bad('the array is read before bottom: it may predate the element', ev[ia][1])
            continue
        e = slot_ok(fn, ev[isl][0][3], T)
        if e:
            bad(e, ev[isl][1])
            continue
        won = [not t[2] for t, _ in ev if t[0] == 'br' and t[1][0] == 'eq' and t[1][2] == ('int', 0)
               and mentions(t[1], lambda x: x[0] == 'cas')]
        if not won:
            bad('the outcome of the race is ignored')
        elif won[-1] and (k != 'slot' or r != ev[isl][0][4]):
            bad('the race was won but the element is not returned (it is lost)')
        elif not won[-1] and k != 'abort':
            bad('the race was lost but the caller is not told to retry')
        else:
            R.ok('deque_steal: race %s' % ('won' if won[-1] else 'lost'))
    R.floor(n, 3, 'paths of deque_steal')


def resize(R):
    R.rule('resize', 'growing copies every element top..bottom into a strictly larger array before publishing it, '
                     'with each array\'s own modulus, and never releases the array thieves may still read')
    m = R.prog.view(lambda n: False, key='p01t')
    fn = m.fn('deque_resize')
    R.saw(fn)
    W = {'copy': 0, 'pub': 0, 'free': 0}
    # allocation: the new array is calloc(..), size field written from 2*old (any growth > old)
    news = [i for i in fn.instrs() if i.op == 'call' and i.attr['name'] in
            ('events_calloc', 'events_malloc', 'events_memalign', 'events_realloc')]
    R.check(bool(news) and all(i.attr['name'] != 'events_realloc' for i in news), fn,
            news[0].where() if news else fn.name, 'the array is not grown into fresh memory')
    copies = []
    for i in fn.instrs():
        if i.op == 'store':
            a = S(fn.ex(i.ops[1]))
            if a[0] == 'idx' and a[1][0] == 'fld' and a[1][3] == 'buffer':
                copies.append(i)
    memcpys = [i for i in fn.calls() if (i.attr['name'] or '').startswith('llvm.memcpy')
               or i.attr['name'] in ('memcpy', 'memmove')]
    if memcpys and not copies:
        R.bad(fn, memcpys[0].where(), 'elements are copied without re-reducing their index to the new size')
    sizes = {}
    for i in fn.instrs():
        if i.op == 'store':
            a = S(fn.ex(i.ops[1]))
            if a[0] == 'fld' and a[3] == 'size' and a[1][0] == 'call':
                sizes[a[1]] = S(fn.ex(i.ops[0]))
    R.check(len(sizes) == 1, fn, fn.name, 'the new array\'s size is not recorded once')
    newsize = list(sizes.values())[0] if sizes else None
    if newsize is not None:
        t, c = lin(newsize)
        old = [x for x in t if x[0] == 'load' and x[1][0] == 'fld' and x[1][3] == 'size']
        R.check(len(t) == 1 and old and (t[old[0]] >= 2), fn, fn.name,
                'the new size is not a multiple (>=2) of the old size')
    # bytes requested cover header + newsize pointers
    for i in news[:1]:
        if i.attr['name'] == 'events_calloc':
            args = [S(fn.ex(o)) for o in i.ops]
            ok = newsize is not None and any(scaled(x, newsize, 8) for x in args)
            R.check(ok, fn, i.where(), 'the allocation does not provide one pointer per element of the new size')
    for i in copies:
        a = fn.ex(i.ops[1])
        v = fn.ex(i.ops[0])
        src = v[1] if v[0] == 'load' else None
        okd = a[2][0] == 'bin' and a[2][1] == 'urem' and (S(a[2][3]) == newsize or S(a[2][3]) == ('load', ('fld', S(a[1][1]), S(a[1])[2], 'size')))
        oks = src is not None and src[0] == 'idx' and src[2][0] == 'bin' and src[2][1] == 'urem' \
            and S(src[2][3])[0] == 'load' and S(src[2][3])[1][0] == 'fld' and S(src[2][3])[1][3] == 'size' \
            and S(src[2][3])[1][1] == S(src[1][1])
        same = oks and okd and a[2][2] == src[2][2]
        R.check(okd and oks and same, fn, i.where(),
                'element copy does not use index%new_size and index%old_size of the same index')
        if okd and oks and same:
            loop_covers(R, fn, i, a[2][2])
    R.check(len(copies) >= 1, fn, fn.name, 'no element is copied to the grown array')

    # publication after the copies, never freed
    def pub(i):
        return i.op == 'store' and cell(fn, fn.ex(i.ops[1])) == 'array'

    def step(s, i, w):
        if pub(i):
            W['pub'] += 1
            if i.attr['order'] not in STRONG['release'] and not s[1]:
                R.bad(fn, i.where(), 'the grown array is published without release: a thief may read stale elements', w.trace())
            v = S(fn.ex(i.ops[0]))
            if v[0] != 'call':
                R.bad(fn, i.where(), 'what is published is not the grown array')
            return (True, s[1])
        if i in copies and s[0]:
            R.bad(fn, i.where(), 'elements are copied after the grown array was published', w.trace())
        if i.op == 'fence' and i.attr['order'] in STRONG['release']:
            return (s[0], True)
        if i.op == 'call' and i.attr['name'] in ('events_free', 'events_realloc', 'rpfree', 'free', 'rp_free'):
            v = S(fn.ex(i.ops[0]))
            if v[0] == 'load' and cell(fn, v[1]) == 'array':
                R.bad(fn, i.where(), 'the replaced array is released although a thief may still be reading it', w.trace())
        return s

    def ex(s, t, w):
        if not s[0]:
            R.bad(fn, t.where(), 'the grown array is never published', w.trace())
        else:
            R.ok('deque_resize: published after copy')
    Walker(fn, step, exit=ex).run((False, False))


def scaled(e, n, k):
    """e is at least k bytes for each of n, and the header, rounded up or not"""
    while e[0] == 'bin' and e[1] == 'and':
        e = e[2] if e[3][0] == 'int' else e[3]
    t, c = lin(e)
    nn, nc = lin(n)
    return bool(nn) and all(t.get(y, 0) >= k * m for y, m in nn.items()) and all(v >= 0 for v in t.values()) and c >= k * nc + 8



def loop_covers(R, fn, site, ix):
    """index runs from top (inclusive) to bottom (exclusive) in steps of one"""
    if ix[0] != 'phi':
        R.bad(fn, site.where(), 'element copy is not indexed by a loop over top..bottom')
        return
    d = fn.defs[ix[1]]
    init = stepv = None
    for v, b in d.attr['inc']:
        e = fn.ex(v)
        if mentions(e, lambda x: x == ix or x[0] == 'ssa'):
            stepv = e
        else:
            init = S(e)

    def c(e):
        return e is not None and e[0] == 'load' and cell(fn, e[1])
    bound = None
    for b in fn.order:
        t = b.term
        if t.op == 'br' and t.ops:
            k, p = literal(S(fn.ex(t.ops[0])))
            if isinstance(k, tuple) and mentions(k, lambda x: x == ix):
                bound = k
    up = c(init) == 'top' and bound is not None and any(
        x[0] == 'load' and cell(fn, x[1]) == 'bottom' for x in walk(bound))
    k, sg, lf, cc = litlin(bound) if bound is not None else (None, None, {}, 9)
    okb = k in ('lt', 'eq') and cc == 0 and sorted(lf.values()) == [-1, 1]
    R.check(up and okb, fn, site.where(), 'the copied range is not exactly top..bottom')


def init(R):
    R.rule('init', 'a new deque is empty (top == bottom), its array has the recorded number of slots')
    m = R.prog.view(lambda n: False, key='p01t')
    fn = m.fn('deque_init')
    R.saw(fn)
    got = {}
    for i in fn.instrs():
        if i.op == 'store':
            a = S(fn.ex(i.ops[1]))
            if a[0] == 'fld':
                got.setdefault(a[3], []).append((S(fn.ex(i.ops[0])), i))
    R.check([v for v, _ in got.get('top', [])] == [v for v, _ in got.get('bottom', [])] and 'top' in got, fn, fn.name,
            'top and bottom do not start equal')
    sz = got.get('size', [(None, None)])[0][0]
    al = [i for i in fn.instrs() if i.op == 'call' and i.attr['name'] in ('events_calloc', 'events_malloc')]
    R.check(sz is not None and al and any(scaled(S(fn.ex(o)), sz, 8) for o in al[0].ops), fn, fn.name,
            'the array allocated is not sized for the recorded number of slots')


RULES = [take, push, steal, resize, init]

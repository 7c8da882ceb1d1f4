"""P18: addresses are read as written, sockets are made for their address and set up as a whole."""
import re
from rules.common import *
from flow import *
from track import Track, root, nodest

TEXT = [
    ('parse', 'an address is accepted only as the numbers written, each in its range, and its family is told'),
    ('bind', 'a socket reported as bound is of the family of its address, bound to it, listening if it is a stream, and non-blocking'),
    ('connect', 'a socket reported as connected is of the family of its address and has a peer; what kept it from it is told'),
    ('accept', 'an accepted socket is non-blocking and gets the address of its peer and no record of an earlier one'),
]
Z = ('int', 0)
INET, UNIX, INET6 = 2, 1, 10
FAM = ('sa_family', 'sin_family', 'sin6_family', 'sun_family', 'ss_family', 'f0')
EINPROGRESS, EAGAIN = 115, 11
ORDER = ('htons', 'htonl', 'ntohs', 'ntohl')


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def wide(e):
    while e is not None and e[0] in ('zext', 'sext', 'trunc'):
        e = e[-1]
    return e


def value_of(e):
    """the place a value was read from"""
    e = wide(e)
    return e[1] if e[0] in ('ld', 'load') else None


def cstr(m, e):
    if e[0] != 'g' or e[1] not in m.globals:
        return None
    mm = re.search(r' c"((?:[^"\\]|\\.)*)"', m.globals[e[1]])
    return mm.group(1).replace('\\00', '') if mm else None


def atmost(T, place, n):
    """the value at the place is known to be at most n (unsigned)"""
    def of(e):
        if e != wide(e):
            return of(wide(e)) if e[0] != 'trunc' else False
        if e[0] == 'bin' and e[1] == 'or' and n & (n + 1) == 0:
            return of(e[2]) or of(e[3])
        return value_of(e) == place
    for k, v in T.F.items():
        if k[0] == 'lt' and k[1] == 'u':
            if v and k[3][0] == 'int' and k[3][1] <= n + 1 and of(k[2]):
                return True
            if not v and k[2][0] == 'int' and k[2][1] <= n and of(k[3]):
                return True
        elif k[0] == 'eq' and v and k[2][0] == 'int' and 0 <= k[2][1] <= n and of(k[1]):
            return True
    return False


def callis(T, nm, d, key):
    return T.fact(('eq', ('call', nm, d), key)) is True


def parse(R):
    R.cur = 'parse'
    m = R.prog.std()
    fn = m.fn('async_parse_addr')
    R.saw(fn)
    n = [0, 0]

    # x = (scan, resolved, text to number, stores, what was put in network order)
    def step(x, i, T):
        sc, pt, ul, st, hn, cp = x
        nm = name(i)
        if nm in ORDER:
            e = wide(T.ev(i.ops[0]))
            p = value_of(e)
            v = T.mem(p) if p is not None else None
            if v is not None and wide(v)[0] == 'call':
                e = wide(v)
            sure = port(T, e, sc, ul)
            at = ()
            if nm in ('htonl', 'ntohl'):
                at = quads(e) or ()
                sure = bool(at) and all(atmost(T, q, 255) for q in at)
            hn = tuple(h for h in hn if h[0] != i.dest) + ((i.dest, nm, e, sure, at),)
        if nm and (nm.endswith('sscanf')):
            a = [T.ev(o) for o in i.ops]
            f = cstr(m, a[1])
            sc = ((nm, i.dest, f, tuple(a[2:]), a[0]),)
            # what a new scan overwrites is no longer what was seen of it
            for k in list(T.F):
                if any(value_of(e) in a[2:] for e in k[1:] if isinstance(e, tuple) and e):
                    del T.F[k]
        elif nm == 'async_inet_pton':
            a = [T.ev(o) for o in i.ops]
            good = root(a[2]) == ('arg', 1) and a[0] in (('int', INET), ('int', INET6)) and a[3] == ('int', 16 if a[0] == ('int', INET) else 28)
            R.check(good, fn, i.where(), 'an address is looked for in another family than it is stored as', trace=T.trace())
            pt = (i.dest, a[0][1] if a[0][0] == 'int' else None)
            whole = sc and sc[-1][2] and sc[-1][2].startswith('[%') and a[1] in sc[-1][3] or root(a[1])[0] == 'alloca' and nodest(root(a[1])) in cp
            R.check(bool(whole), fn, i.where(), 'another name is looked up than the one written', trace=T.trace())
        elif nm in PUT or nm and (nm.startswith('llvm.memcpy') or nm == 'memcpy'):
            a = [T.ev(o) for o in i.ops]
            if root(a[0])[0] == 'alloca':
                cp = cp - {nodest(root(a[0]))}
                if copied(T, nm, a):
                    cp = cp | {nodest(root(a[0]))}
        elif nm and nm.endswith('strtoul'):
            a = [T.ev(o) for o in i.ops]
            R.check(a[0] == ('arg', 0), fn, i.where(), 'another number than the one given is read', trace=T.trace())
            ul = (nm, i.dest, a[1])
        elif i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if root(a) == ('arg', 1) and a[0] == 'fld':
                st = tuple(q for q in st if q[0] != a[3]) + ((a[3], v),)
            elif a == ('arg', 2):
                st = tuple(q for q in st if q[0] != '#') + (('#', v),)
        return (sc, pt, ul, st, hn, cp)

    def colon(e):
        return e[0] == 'call' and e[1] in ('strchr', 'memchr', 'rawmemchr') or e[0] == 'call' and e[1] == 'strpbrk'

    def copied(T, nm, a):
        """a name is copied up to its colon, as far as there is room"""
        src, k = (a[3], a[2]) if nm == 'snprintf' else (a[1], a[2]) if len(a) > 2 else (None, Z)
        if nm == 'snprintf':
            if len(a) < 5 or cstr(m, a[2]) != '%.*s':
                return False
            src, k = a[4], a[3]
        t, c = lin(wide(k))
        ps = {wide(q)[1] if wide(q)[0] == 'ptrtoint' else wide(q): v for q, v in t.items()}
        pos = [q for q, v in ps.items() if v == 1]
        neg = [q for q, v in ps.items() if v == -1]
        if not (src == ('arg', 0) and len(ps) == 2 and len(pos) == len(neg) == 1 and colon(pos[0]) and neg[0] == ('arg', 0)):
            return False
        if c != (1 if nm in ('str_lcpy', 'strlcpy') else 0):
            return False
        room = getsize(root(a[0]))
        known = [k_ for k_, v in T.F.items() if k_[0] == 'lt' and k_[1] == 'u' and v and k_[3][0] == 'int' and lin(wide(k_[2]))[0] == t and
                 (room is None or k_[3][1] - lin(wide(k_[2]))[1] <= room)]
        return bool(known) or nm == 'snprintf'

    def getsize(al):
        for i in fn.instrs():
            if i.op == 'alloca' and i.dest == al[1]:
                mm = re.search(r'\[(\d+) x i8\]', str(i.attr))
                return int(mm.group(1)) if mm else None
        return None

    def unhton(e, hn, names):
        """what a value in network order was made from: (value, in its range where it was made, parts)"""
        e = wide(e)
        for h in hn:
            if e == ('call', h[1], h[0]) and h[1] in names:
                return h[2:]
        return (None, False, ())

    def port(T, e, sc, ul):
        """e is the port that was written, in its range"""
        e = wide(e)
        p = value_of(e)
        if sc and p is not None and p in sc[-1][3]:
            f = [q for q in specs(sc[-1][2]) if q != 'n']
            k = sc[-1][3].index(p)
            return callis(T, sc[-1][0], sc[-1][1], ('int', k + 1)) and k == len(f) - 1 and f[k] == 'u' and atmost(T, p, 65535)
        if ul is not None and e == ('call', ul[0], ul[1]):
            low = T.fact(('lt', 'u', e, ('int', 65536)))
            some = any(k[0] == 'eq' and not v and ('arg', 0) in k[1:] and any(value_of(q) == ul[2] for q in k[1:]) for k, v in T.F.items())
            end = any(k[0] == 'eq' and v and k[2] == Z and value_of(k[1]) is not None and value_of(value_of(k[1])) == ul[2] for k, v in T.F.items())
            return low is True and some and end
        return False

    def ex(x, t, T, rv):
        sc, pt, ul, st, hn, cp = x
        d = dict(st)
        tr, w = T.trace(), t.where()
        n[0] += 1
        if rv == Z:
            R.check(d.get('#') == Z, fn, w, 'an address that was refused has a family', trace=tr)
            return
        n[1] += 1
        got = pt is not None and T.null(('call', 'async_inet_pton', pt[0])) is False
        if d.get('sun_family') == ('int', UNIX):
            R.check(d.get('#', Z)[0] == 'int' and d['#'][1] not in (0, 4, 6), fn, w, 'a path is taken for an internet address', trace=tr)
            return
        v6 = got and pt[1] == INET6
        R.check(d.get('#') == ('int', 6 if v6 else 4), fn, w, 'an address is told as one of another family', trace=tr)
        p, sure, _ = unhton(d.get('sin_port', d.get('sin6_port', Z)), hn, ('htons', 'ntohs'))
        R.check(p is not None, fn, w, 'the port is not in network order', trace=tr)
        if p is not None:
            R.check(sure or port(T, p, sc, ul), fn, w, 'the port is not the one written, is out of range, or was not all of the text', trace=tr)
        if got:
            f = sc[-1][2] if sc else ''
            if not (f or '').startswith('[%'):
                at = sc[-1][4] if sc else Z
                R.check(at[0] == 'idx' and colon(at[1]) and at[2] == ('int', 1) or at[0] == 'bin' and colon(at[2]) and at[3] == ('int', 1), fn, w,
                        'the port is looked for elsewhere than behind the name', trace=tr)
            return
        if 's_addr' in d:
            e, sure, at = unhton(d['s_addr'], hn, ('htonl', 'ntohl'))
            good = bool(at) and sc and list(at) == list(sc[-1][3][:4]) and '%u.%u.%u.%u:%u' in (sc[-1][2] or '') and sc[-1][4] == ('arg', 0)
            R.check(bool(good), fn, w, 'the address is not made of the numbers written, in their order', trace=tr)
            if good:
                R.check(sure or all(atmost(T, q, 255) for q in at), fn, w, 'a number beyond 255 is taken as part of an address', trace=tr)
        else:
            R.check(p is not None and ul is not None and p == ('call', ul[0], ul[1]), fn, w, 'a port on any address is made of something else than a number alone', trace=tr)
    Track(fn, step=step, exit=ex, x0=((), None, None, (), (), frozenset()), pure=ORDER).run()
    R.floor(n[1], 4, 'ways of accepting an address', must=True)
    R.floor(n[0] - n[1], 1, 'ways of refusing an address', must=True)


def specs(f):
    """the conversions of a scan format"""
    return re.findall(r'%(?:\d*)(\[\^?\]?[^\]]*\]|[a-z])', f or '')


def quads(e):
    """the four places a 32 bit number is put together from, highest first"""
    got = {}

    def go(e, sh):
        e = wide(e)
        if e[0] == 'bin' and e[1] in ('or', 'add', 'xor'):
            return go(e[2], sh) and go(e[3], sh)
        if e[0] == 'bin' and e[1] == 'shl' and e[3][0] == 'int':
            return go(e[2], sh + e[3][1])
        if e[0] == 'bin' and e[1] == 'mul' and e[3][0] == 'int' and e[3][1] in (1 << 8, 1 << 16, 1 << 24):
            return go(e[2], sh + e[3][1].bit_length() - 1)
        p = value_of(e)
        if p is None or sh in got or sh not in (0, 8, 16, 24):
            return False
        got[sh] = p
        return True
    return tuple(got[k] for k in (24, 16, 8, 0)) if go(e, 0) and len(got) == 4 else None


# ------------------------------------------------------------------ sockets
def nofd(T, rv):
    return rv is not None and wide(rv)[0] == 'int' and wide(rv)[1] < 0


def isfd(e, d, nm='socket'):
    e = wide(e)
    while e[0] == 'call' and e[1] in ('socket2fd', 'fd2socket'):
        e = wide(e[-1])
    return e == ('call', nm, d)


def family(T, e, addr):
    """e is the family of the address"""
    p = value_of(e)
    return p is not None and (p[0] == 'fld' and p[3] in FAM and root(p) == root(addr) or p == root(addr))


def is6(T, addr, ipf):
    """the address is known to be an IPv6 one, or not; 'no' where the family of the address and the
    one told for it differ, which rule parse rules out"""
    got = set()
    for k, v in T.F.items():
        if k[0] == 'eq' and k[2] == ('int', INET6) and family(T, k[1], addr) or \
                k[0] == 'eq' and k[2] == ('int', 6) and value_of(k[1]) is not None and value_of(k[1]) == ipf:
            got.add(v)
        elif v and k[0] == 'eq' and (k[2] == ('int', INET) and family(T, k[1], addr) or
                                     k[2] == ('int', 4) and value_of(k[1]) is not None and value_of(k[1]) == ipf):
            got.add(False)
    return None if not got else 'no' if len(got) > 1 else got.pop()


def zero(T, c):
    """the call succeeded: 0, or not below 0"""
    return T.null(c) is True or T.fact(('lt', 's', c, Z)) is False or T.fact(('eq', c, ('int', -1))) is False


def length(T, e, addr, ipf, unix):
    e = wide(e)
    p = value_of(e)
    if p is not None:
        v = T.mem(p)
        e = wide(v) if v is not None else e
    if e[0] == 'select' and e[1][0] == 'cmp' and e[1][1] in ('eq', 'ne') and not unix:
        c = e[1]
        six = c[3] == ('int', INET6) and family(T, c[2], addr) or c[3] == ('int', 6) and value_of(c[2]) == ipf
        a6, a4 = (e[2], e[3]) if c[1] == 'eq' else (e[3], e[2])
        return six and a6 == ('int', 28) and a4 == ('int', 16)
    if e[0] != 'int':
        return False
    if unix:
        return 100 <= e[1] <= 110
    six = is6(T, addr, ipf)
    return six == 'no' or e[1] == 28 and six is True or e[1] == 16 and six is False or e[1] == 128


def made(R, fn, i, T, proto, unix, adr):
    a = [wide(T.ev(o)) for o in i.ops]
    kind = ('int', 1) if proto else ('int', 2)
    R.check(len(a) > 1 and (a[1] == kind or a[1][0] == 'int' and a[1][1] & 0xff == kind[1]), fn, i.where(),
            'the socket is of another kind than the protocol asks for', trace=T.trace())
    R.check(a[2] in ((Z, ('int', 17)) if not proto else (Z, ('int', 6))) or unix and a[2] == Z, fn, i.where(),
            'the socket speaks another protocol than asked for', trace=T.trace())
    return a[0]


PUT = ('strncpy', 'strcpy', 'str_lcpy', 'snprintf', 'stpncpy', 'strlcpy', 'str_copy')


def pathed(x, i, T, text):
    """what is known of addresses made of a path: {(place of the address, 'path' | 'family')}"""
    nm = name(i)
    if i.op == 'store':
        a = T.ev(i.ops[1])
        # (the family is what an address begins with)
        if a[0] == 'fld' and a[3] in FAM or a[0] == 'alloca' and i.attr.get('ty') == 'i16':
            b = nodest(base(a))
            return x | {(b, 'family')} if T.ev(i.ops[0]) == ('int', UNIX) else x - {(b, 'family')}
    elif nm in PUT or nm and nm.startswith('llvm.memcpy'):
        a = [T.ev(o) for o in i.ops]
        d = a[0]
        while d[0] == 'idx' and d[2] == Z:
            d = d[1]
        if d[0] == 'fld' and d[3] == 'sun_path':
            b = nodest(base(d))
            good = text in a[1:]
            if nm in ('strncpy', 'str_lcpy', 'strlcpy', 'stpncpy'):
                k = wide(a[2])
                good = good and (k[0] != 'int' or 106 <= k[1] <= 108)
            return x | {(b, 'path')} if good else x - {(b, 'path')}
    elif nm and nm.startswith('llvm.memset'):
        d = T.ev(i.ops[0])
        return frozenset(y for y in x if y[0] != nodest(base(d)) and y[0] != nodest(d))
    return x


def base(a):
    while a[0] == 'fld' and a[3] in FAM + ('sun_path', 'sun', 'sa', 'sin', 'sin6', 'storage') or a[0] == 'idx' and a[2] == Z:
        a = a[1]
    return a


def isunix(T, uds):
    """the socket is one of a path: its record was asked for and is there"""
    return uds is not None and T.null(uds) is not True


def binding(R):
    R.cur = 'bind'
    m = R.prog.std()
    fn = m.fn('async_bind')
    bound(R, m, fn, 0, None)
    # no address means any: only the port is written for the reader
    k = 0
    for i in fn.instrs():
        if name(i) == 'snprintf':
            k += 1
    R.floor(k, 1, 'addresses written out')
    texts(R, m, fn, 0, 1, True)
    # the one that is given an address already read
    bound(R, m, m.fn('async_socket'), 1, ('arg', 0))


def bound(R, m, fn, path, ready):
    R.saw(fn)
    n = [0, 0]
    for proto in (0, 1, -1):
        # x = dict as tuple: socket, family, bound, listening, nonblocking, parsed, record, address text
        def step(x, i, T, proto=proto):
            so, fam, bo, li, nb, pa, ud, rec, pth = x
            nm = name(i)
            pth = pathed(pth, i, T, ('arg', path))
            if nm in ('events_calloc', 'events_malloc') and (proto == -1 or ready) and so is None:
                ud = ('call', nm, i.dest)
            elif nm == 'async_parse_addr':
                pa = (i.dest, T.ev(i.ops[1]), T.ev(i.ops[2]))
            elif nm == 'socket':
                fam = made(R, fn, i, T, proto, isunix(T, ud), pa or ready)
                if ready:
                    R.check(family(T, fam, ready), fn, i.where(), 'the socket is of another family than its address', trace=T.trace())
                so = i.dest
            elif nm == 'bind':
                a = [T.ev(o) for o in i.ops]
                ux = (proto == -1 or ready) and isunix(T, ud)
                R.check(so is not None and isfd(a[0], so), fn, i.where(), 'another socket is bound', trace=T.trace())
                if ux:
                    R.check(ready or fam == ('int', UNIX), fn, i.where(), 'the socket is of another family than its address', trace=T.trace())
                    R.check({(nodest(base(a[1])), 'path'), (nodest(base(a[1])), 'family')} <= pth, fn, i.where(), 'the socket is bound to another path than the one given', trace=T.trace())
                else:
                    R.check(ready and a[1] == ready or pa is not None and root(a[1]) == root(pa[1]) and T.null(('call', 'async_parse_addr', pa[0])) is False, fn, i.where(),
                            'the socket is bound to another address than the one given', trace=T.trace())
                    six = is6(T, a[1], pa and pa[2])
                    R.check(family(T, fam, a[1]) or six == 'no' or fam == ('int', INET6) and six is True or fam == ('int', INET) and six is False, fn, i.where(),
                            'the socket is of another family than its address', trace=T.trace())
                R.check(length(T, a[2], a[1], pa and pa[2], ux), fn, i.where(), 'the length is not that of the address', trace=T.trace())
                bo = i.dest
            elif nm == 'listen':
                a = [T.ev(o) for o in i.ops]
                R.check(isfd(a[0], so) and a[1] == ('arg', 2), fn, i.where(), 'another socket listens, or with another backlog', trace=T.trace())
                R.check(bo is not None, fn, i.where(), 'a socket listens before it is bound', trace=T.trace())
                li = i.dest
            elif nm == 'events_set_nonblocking':
                nb = nb or isfd(T.ev(i.ops[0]), so)
            elif nm and nm.startswith('llvm.memcpy') and so is not None and pa is not None:
                a = [T.ev(o) for o in i.ops]
                if on(a[0], so) and root(a[1]) == root(pa[1]):
                    rec = True
            return (so, fam, bo, li, nb, pa, ud, rec, pth)

        def on(a, so):
            return mentions(a, lambda y: y == ('call', 'socket', so)) and a[0] == 'fld'

        def ex(x, t, T, rv, proto=proto):
            so, fam, bo, li, nb, pa, ud, rec, pth = x
            tr, w = T.trace(), t.where()
            n[0] += 1
            if nofd(T, rv):
                done = bo is not None and zero(T, ('call', 'bind', bo)) and (not proto or li is not None and zero(T, ('call', 'listen', li)))
                R.check(not done, fn, w, 'a socket is given up although it is bound', trace=tr)
                return
            n[1] += 1
            R.check(so is not None and isfd(rv, so), fn, w, 'another descriptor is given than the socket bound', trace=tr)
            b = ('call', 'bind', bo)
            R.check(bo is not None and zero(T, b), fn, w, 'a socket that is not bound is reported as bound', trace=tr)
            if proto:
                l = ('call', 'listen', li)
                R.check(li is not None and zero(T, l), fn, w,
                        'a socket that does not listen is reported as listening', trace=tr)
            else:
                R.check(li is None, fn, w, 'a datagram socket listens', trace=tr)
            R.check(nb, fn, w, 'the socket blocks', trace=tr)
            if not ready and not (proto == -1 and isunix(T, ud)):
                R.check(rec is True, fn, w, 'the address of the socket is not noted', trace=tr)
        Track(fn, step=step, exit=ex, args={3: proto}, x0=(None, None, None, None, False, None, None, None, frozenset()), pure=('socket2fd', 'fd2socket') + PUT).run()
    R.floor(n[1], 3, 'ways of giving a bound socket', must=True)
    R.floor(n[0] - n[1], 3, 'ways of refusing to bind', must=True)


def texts(R, m, fn, ad, po, any_):
    """the text that is read as an address: the name and the port given"""
    n = [0]

    def step(x, i, T):
        if name(i) == 'async_parse_addr':
            R.check(nodest(root(T.ev(i.ops[0]))) in x, fn, i.where(), 'a text is read as an address that was not written', trace=T.trace())
        if name(i) != 'snprintf':
            return x
        a = [T.ev(o) for o in i.ops]
        if mentions(a[0], lambda y: isinstance(y, tuple) and len(y) > 3 and y[0] == 'fld' and y[3] in ('sun_path',)):
            return x
        x = x | {nodest(root(a[0]))}
        f = cstr(m, a[2])
        n[0] += 1
        null = T.null(('arg', ad))
        noport = T.null(('arg', po))
        if f == '%d' or f == '%u':
            R.check(any_ and null is True and a[3] == ('arg', po), fn, i.where(), 'an address is left out', trace=T.trace())
        elif f in ('%s:%d', '%s:%u'):
            R.check(a[3:] == [('arg', ad), ('arg', po)] and (null is False or not any_), fn, i.where(), 'another address or port than the one given is read', trace=T.trace())
        elif f == '%s':
            R.check(a[3] == ('arg', ad) and noport is True and (null is False or not any_), fn, i.where(), 'the port given is left out', trace=T.trace())
        else:
            R.bad(fn, i.where(), 'the address is written in another form', T.trace())
        return x
    Track(fn, step=step, exit=lambda *a: None, x0=frozenset()).run()
    R.floor(n[0], 2, 'addresses written out')


def connect(R):
    R.cur = 'connect'
    m = R.prog.std()
    fn = m.fn('async_connect')
    R.saw(fn)
    n = [0, 0]
    CON = ('connect', 'os_connect')
    for proto in (0, 1, -1):
        def step(x, i, T, proto=proto):
            so, fam, co, wa, gp, nb, pa, ud, er, en, pth, no = x
            nm = name(i)
            pth = pathed(pth, i, T, ('arg', 0))
            if nm in ('events_calloc', 'events_malloc') and proto == -1 and so is None:
                ud = ('call', nm, i.dest)
            elif nm == 'async_parse_addr':
                pa = (i.dest, T.ev(i.ops[1]), T.ev(i.ops[2]))
            elif nm == 'socket':
                fam = made(R, fn, i, T, proto, isunix(T, ud), pa)
                so = i.dest
            elif nm in CON:
                a = [T.ev(o) for o in i.ops]
                ux = proto == -1 and isunix(T, ud)
                R.check(co is None and so is not None and isfd(a[0], so), fn, i.where(), 'another socket is connected, or one twice', trace=T.trace())
                R.check(nb, fn, i.where(), 'the socket blocks while it connects', trace=T.trace())
                if ux:
                    R.check(fam == ('int', UNIX), fn, i.where(), 'the socket is of another family than its address', trace=T.trace())
                    R.check({(nodest(base(a[1])), 'path'), (nodest(base(a[1])), 'family')} <= pth, fn, i.where(), 'the socket is connected to another path than the one given', trace=T.trace())
                else:
                    R.check(pa is not None and root(a[1]) == root(pa[1]) and T.null(('call', 'async_parse_addr', pa[0])) is False, fn, i.where(),
                            'the socket is connected to another address than the one given', trace=T.trace())
                    six = is6(T, a[1], pa and pa[2])
                    R.check(family(T, fam, a[1]) or six == 'no' or fam == ('int', INET6) and six is True or fam == ('int', INET) and six is False, fn, i.where(),
                            'the socket is of another family than its address', trace=T.trace())
                R.check(length(T, a[2], a[1], pa and pa[2], ux), fn, i.where(), 'the length is not that of the address', trace=T.trace())
                co = (nm, i.dest)
            elif nm == 'events_set_nonblocking':
                nb = nb or isfd(T.ev(i.ops[0]), so)
            elif nm == 'async_wait':
                a = [T.ev(o) for o in i.ops]
                wa = isfd(a[0], so) and a[1] == ('int', 119) and co is not None
                # left waiting only when connecting is under way, or done
                c = ('call',) + co if co else None
                going = co is not None and (zero(T, c) or er)
                R.check(going, fn, i.where(), 'a connection that failed is waited for', trace=T.trace())
            elif nm == 'getpeername':
                R.check(isfd(T.ev(i.ops[0]), so), fn, i.where(), 'another socket is asked for its peer', trace=T.trace())
                gp = i.dest
            elif nm == 'getsockopt' and gp is not None:
                a = [T.ev(o) for o in i.ops]
                if a[1] == ('int', 1) and a[2] == ('int', 4):
                    en = ('asked', a[3])
            elif i.op == 'store' and gp is not None:
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                if en:
                    at = en[1]
                    none = any(k[0] == 'eq' and vv and k[2] == Z and value_of(k[1]) == at for k, vv in T.F.items())
                    if a == at and value_of(v) != at and not none:
                        en = ('lost', at)        # what the socket told is written over
                    elif a[0] == 'call' and a[1] == '__errno_location' and en[0] != 'lost':
                        own = value_of(v) == at or value_of(v) is None and v == T.mem(at) or v[0] == 'select' and at in (value_of(v[2]), value_of(v[3]))
                        en = ('told' if own or none else 'other', at)
            elif nm in ('os_close', 'close', 'events_free') and en and en[0] == 'told':
                en = ('asked', en[1])            # may change it again
            return (so, fam, co, wa, gp, nb, pa, ud, er, en, pth, no)

        def edge(x, k, p, i, T):
            so, fam, co, wa, gp, nb, pa, ud, er, en, pth, no = x
            if k[0] == 'eq' and k[2] in (('int', EINPROGRESS), ('int', EAGAIN)) and \
                    (wide(k[1])[0] == 'call' and wide(k[1])[1] == 'os_geterror' or value_of(k[1]) and value_of(k[1])[0] == 'call' and value_of(k[1])[1] == '__errno_location'):
                er = er or p
                no = no - {k[2][1]} if p else no | {k[2][1]}
            return (so, fam, co, wa, gp, nb, pa, ud, er, en, pth, no)

        def ex(x, t, T, rv, proto=proto):
            so, fam, co, wa, gp, nb, pa, ud, er, en, pth, no = x
            tr, w = T.trace(), t.where()
            n[0] += 1
            peer = gp is not None and zero(T, ('call', 'getpeername', gp))
            if nofd(T, rv):
                R.check(not peer, fn, w, 'a socket is given up although it is connected', trace=tr)
                if gp is not None:
                    R.check(co is not None and wa, fn, w, 'a socket is given up before it was waited for', trace=tr)
                    R.check(en is not None and en[0] == 'told', fn, w, 'what kept the socket from connecting is not told', trace=tr)
                elif co is not None:
                    R.check(not zero(T, ('call',) + co) and no == frozenset({EINPROGRESS, EAGAIN}), fn, w, 'connecting is given up while it is under way', trace=tr)
                return
            n[1] += 1
            R.check(so is not None and isfd(rv, so), fn, w, 'another descriptor is given than the socket connected', trace=tr)
            R.check(co is not None and wa, fn, w, 'a socket is given before it was waited for', trace=tr)
            R.check(peer, fn, w, 'a socket without a peer is reported as connected', trace=tr)
            R.check(nb, fn, w, 'the socket blocks', trace=tr)
        Track(fn, step=step, edge=edge, exit=ex, args={2: proto}, x0=(None, None, None, False, None, False, None, None, False, None, frozenset(), frozenset()),
              pure=('socket2fd', 'fd2socket', '__errno_location') + PUT).run()
    R.floor(n[1], 3, 'ways of giving a connected socket', must=True)
    texts(R, m, fn, 0, 1, False)


def accept(R):
    R.cur = 'accept'
    m = R.prog.std()
    fn = m.fn('async_accept')
    R.saw(fn)
    n = [0, 0]
    ACC = ('accept', 'accept4', 'os_accept')

    # x = (accepted, address, waited, nonblocking, cleared, noted, port, family mark)
    def step(x, i, T):
        ac, ad, wa, nb, cl, no, po, hn = x
        nm = name(i)
        cfd = lambda e: ac is not None and isfd(e, ac[1], ac[0])
        if nm == 'async_wait':
            a = [T.ev(o) for o in i.ops]
            wa = a == [('arg', 0), ('int', 114)]
        elif nm in ACC:
            a = [T.ev(o) for o in i.ops]
            R.check(a[0] == ('arg', 0), fn, i.where(), 'another socket accepts', trace=T.trace())
            R.check(wa, fn, i.where(), 'a socket accepts before it was waited for', trace=T.trace())
            ac, ad = (nm, i.dest), root(a[1])
        elif nm == 'events_set_nonblocking':
            nb = nb or cfd(T.ev(i.ops[0]))
        elif nm and nm.startswith('llvm.memcpy') and ac:
            a = [T.ev(o) for o in i.ops]
            if a[0][0] == 'fld' and mentions(a[0], cfd) and root(a[1]) == ad:
                no = True
        elif nm in ORDER and ac:
            hn = tuple(h for h in hn if h[0] != i.dest) + ((i.dest, ports(T, T.ev(i.ops[0]), ad)),)
        elif i.op == 'store' and ac:
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if a[0] == 'fld' and a[3] in ('uds', 'udp') and mentions(a[1], cfd) and v == Z:
                cl = cl | {a[3]}
            if a == ('arg', 2):
                R.check(T.null(a) is False, fn, i.where(), 'a port is told to nobody', trace=T.trace())
                po = v
        return (ac, ad, wa, nb, cl, no, po, hn)

    def ex(x, t, T, rv):
        ac, ad, wa, nb, cl, no, po, hn = x
        tr, w = T.trace(), t.where()
        n[0] += 1
        ok = ac is not None and zero(T, ('call',) + ac)
        if nofd(T, rv):
            R.check(not ok, fn, w, 'an accepted socket is dropped', trace=tr)
            return
        n[1] += 1
        R.check(ok and isfd(rv, ac[1], ac[0]), fn, w, 'what is given is not the socket accepted', trace=tr)
        R.check(nb, fn, w, 'the accepted socket blocks', trace=tr)
        R.check(no is True, fn, w, 'the address of the peer is not noted', trace=tr)
        R.check(cl == frozenset({'uds', 'udp'}), fn, w, 'the accepted socket keeps the record of an earlier one', trace=tr)
        if po is not None:
            e = wide(po)
            R.check(e[0] == 'call' and dict(hn).get(e[2]) is True, fn, w, 'the port given is not that of the peer', trace=tr)
        else:
            asked = T.null(('arg', 2))
            ux = [not v for k, v in T.F.items() if k[0] == 'eq' and k[2] == Z and wide(k[1])[:2] == ('call', 'socket_is_uds')]
            R.check(asked is True or (ux[-1] if ux else unixish(T)), fn, w, 'the port of the peer is not given', trace=tr)

    def unixish(T):
        return any(mentions(k, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[3] in ('uds', 'sa_family')) for k in T.F)

    def ports(T, e, ad):
        e = wide(e)
        p = value_of(e)
        if p is not None:
            return p[0] == 'fld' and p[3] in ('sin_port', 'sin6_port') and root(p) == ad
        if e[0] == 'select':
            return ports(T, e[2], ad) and ports(T, e[3], ad)
        return False
    Track(fn, step=step, exit=ex, x0=(None, None, False, False, frozenset(), None, None, ()), pure=('socket2fd', 'fd2socket', 'ntohs', 'htons')).run()
    R.floor(n[1], 2, 'ways of giving an accepted socket', must=True)
    R.floor(n[0] - n[1], 1, 'ways of refusing to accept', must=True)


RULES = [start, parse, binding, connect, accept]

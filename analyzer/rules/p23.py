"""P23: datagrams: each is handed over whole, with its own sender, and answered to it."""
from rules.common import *
from flow import *
from track import Track, root, nodest

TEXT = [
    ('recv', 'the record of a datagram holds its bytes, its length and its sender, in memory of its own, and nothing but the receiver gets it'),
    ('send', 'a datagram goes to the address it is for, with the length of that address, the bytes and the flags asked for'),
    ('to', 'udp_to stores, as the address the socket sends to, all of what the address given reads as'),
    ('life', 'a handler gets the record once, and record, message and address are released once, after it'),
    ('kind', 'a new socket has no record of an earlier one, and is called a udp or unix socket only when its own record says so'),
]
NEW = {'events_calloc', 'calloc', 'events_malloc', 'malloc'}
COPY = re.compile(r'^llvm\.mem(cpy|move)|^memcpy$|^memmove$')
AF_INET6 = 10


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def wide(e):
    while e[0] in ('zext', 'sext') or e[0] == 'trunc' and e[1] >= 32:
        e = e[-1]
    return e


def room(e, n):
    """room for at least n bytes"""
    if e[0] == 'bin' and e[1] == 'and' and e[3][0] == 'int' and e[3][1] < 0:
        k = -e[3][1]
        t, c = lin(wide(e[2]))
        return k & (k - 1) == 0 and fits(t, c - (k - 1), n)
    t, c = lin(wide(e))
    return fits(t, c, n)


def fits(t, c, n):
    t = {wide(k): v for k, v in t.items()}
    while len(t) == 1 and list(t.values()) == [1]:
        k = list(t)[0]
        if wide(k) == n:
            return c >= 0
        if k[0] not in ('bin',):
            return False
        t2, c2 = lin(k)
        if set(t2) == set(t):
            return False
        t, c = {wide(y): v for y, v in t2.items()}, c + c2
    return False


def own(v):
    return v[0] == 'call' and v[1] in NEW


def recv(R):
    R.cur = 'recv'
    m = R.prog.std()
    fn = m.fns['udp_recv']
    R.saw(fn)
    sizes = {}

    def upd(x, **kw):
        d = dict(x)
        d.update(kw)
        return tuple(sorted(d.items(), key=lambda y: y[0]))

    # x: items of what is known: got = (result, buffer, address, room); f:<record>.<field> = value; z:<block> = bytes; c:<to> = (from, bytes)
    def step(x, i, T):
        d = dict(x)
        n = name(i)
        if i.op == 'call' and n == 'recvfrom':
            o = [T.ev(k) for k in i.ops]
            R.check(o[0] == ('arg', 0), fn, i.where(), 'the datagram is taken from another socket', trace=T.trace())
            buf = root(o[1])
            size = fn_size(fn, buf, d)
            k = wide(o[2])
            R.check(size is not None and (k == size or k[0] == 'int' and size[0] == 'int' and k[1] <= size[1]), fn, i.where(), 'more is asked for than there is room for', trace=T.trace())
            return upd(x, got=(('call', n, i.dest), buf, o[4]))
        if i.op == 'call' and n in NEW:
            s = [T.ev(k) for k in i.ops]
            s = [k for k in s if k != ('int', 1)] or [('int', 1)]
            return upd(x, **{'z:%s' % i.dest: s[0] if len(s) == 1 else ('int', 0)})
        if i.op == 'call' and COPY.match(n or ''):
            o = [T.ev(k) for k in i.ops[:3]]
            return upd(x, **{'c:%r' % (known(d, o[0]),): (o[1], wide(o[2]))})
        if i.op == 'call' and n and not n.startswith('llvm.') and n in m.fns and i.ops:
            for o in i.ops:
                v = T.ev(o) if isinstance(o, tuple) else None
                if v and own(v) and d.get('got') and ('call', n) != v[:2] and n not in ('events_free', 'is_ptr_usable', 'defer_free') and Writes(m, n, i.ops.index(o)):
                    R.bad(fn, i.where(), 'the record of a datagram becomes known to something that lives on', T.trace())
            return x
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if own(v) and not own(root(a)) and root(a)[0] != 'alloca':
                R.bad(fn, i.where(), 'the record of a datagram is also kept where it is found after its handler has released it', T.trace())
            if a[0] == 'fld' and own(a[1]):
                return upd(x, **{'f:%s.%s' % (a[1][2], a[3]): v})
        return x

    def lost(x, T):
        """one of the pieces of memory could not be had"""
        return any(k.startswith('z:') and gone(dict(x), ('call', k[2:]), T) is True for k in dict(x))

    def gone(d, b, T):
        """the piece of memory could not be had (None: not looked at)"""
        v = d.get('n:%s' % b[-1])
        for n in sorted(NEW) if v is None else ():
            k = T.null(('call', n, b[-1]))
            if k is not None:
                return k
        return v

    def edge(x, k, p, i, T):
        d = dict(x)
        if k[0] == 'eq' and k[2] == ('int', 0):
            b = known(d, k[1])
            if own(b):
                v = gone(d, b, T)
                if v is not None and v != p:
                    return None
                return upd(x, **{'n:%s' % b[2]: p})
        return x

    def known(d, v):
        """the block a value read back from a record's field is"""
        if v[0] in ('ld', 'load') and v[1][0] == 'fld' and own(v[1][1]):
            return d.get('f:%s.%s' % (v[1][1][2], v[1][3]), v)
        return v

    def ex(x, t, T, rv):
        d = dict(x)
        if rv is None or T.null(rv) is True or rv == ('int', 0):
            g = d.get('got')
            if g is not None:
                empty = any(T.fact(('lt', 's', k, ('int', 1))) is True or T.fact(('lt', 's', k, ('int', 0))) is True
                            or T.fact(('eq', k, ('int', 0))) is True or T.fact(('lt', 's', ('int', 0), k)) is False
                            for k in (g[0], ('trunc', 32, g[0])))
                R.check(empty or lost(x, T), fn, t.where(), 'a datagram that was taken is not given', trace=T.trace())
            return
        if not own(rv):
            R.bad(fn, t.where(), 'what is given back is not a record of its own', T.trace())
            return
        if 'f:%s.nread' % rv[2] not in d:
            R.check(T.null(rv) is not False and not any(k.startswith('f:' + rv[2]) for k in d), fn, t.where(), 'the record has no length', trace=T.trace())
            return
        g = d.get('got')
        f = lambda k: d.get('f:%s.%s' % (rv[2], k))
        say = lambda c, msg: R.check(c, fn, t.where(), msg, trace=T.trace())
        say(g is not None and wide(f('nread')) == g[0], 'the length in the record is not that of the datagram')
        say(f('socket') == ('arg', 0), 'the record names another socket')
        say(f('flags') is not None and nodest(f('flags'))[0] == 'load' and field_of(nodest(f('flags'))[1], 'flags'), 'the flags of the socket are not in the record')
        say(f('type') is not None and f('type')[0] == 'int', 'the record is not marked as a datagram')
        say(f('message_set') is not None and f('message_set') not in (('int', 0),), 'the message is not marked as there')
        ms, ad = f('message'), f('addr')
        say(ms is not None and own(ms) and ms != rv, 'the message is not in memory of its own')
        say(ad is not None and own(ad) and ad != ms and ad != rv, 'the sender is not in memory of its own')
        for b in (ms, ad):
            if b is not None and own(b):
                say(gone(d, b, T) is False, 'the record is given although there may be no memory for all of it')
        if g is None or ms is None or ad is None:
            return
        c = d.get('c:%r' % (ms,))
        say(c is not None and root(c[0]) == g[1] and c[0] == g_start(c[0], g[1]) and c[1] == g[0], 'the message is not the bytes of the datagram')
        say(room(d.get('z:%s' % ms[2], ('int', 0)), g[0]), 'there is no room for the message')
        c = d.get('c:%r' % (ad,))
        z = d.get('z:%s' % ad[2], ('int', 0))
        say(c is not None and nodest(c[0]) == nodest(g[2]), 'the sender in the record is not that of the datagram')
        say(c is not None and c[1][0] == 'int' and z[0] == 'int' and 28 <= c[1][1] <= z[1], 'the sender in the record is cut off, or there is no room for it')
    Track(fn, step=step, edge=edge, exit=ex, x0=(), pure=('is_ptr_usable',), limit=60000).run()


def g_start(a, buf):
    return a if a[0] == 'alloca' or a == buf else buf


def fn_size(fn, buf, d):
    """the bytes of a buffer"""
    if buf[0] == 'alloca':
        for i in fn.instrs():
            if i.op == 'alloca' and i.dest == buf[1]:
                k = re.match(r'\[(\d+) x i8\]', i.attr.get('ty') or '')
                return ('int', int(k[1])) if k else None
    if own(buf):
        return d.get('z:%s' % buf[2])
    return None


def Writes(m, n, k):
    from rules.p20 import Keeps
    q = m.__dict__.setdefault('_keeps', Keeps(m))
    return q(n, k)


def family(T, a, ln):
    """the length is that of the family of the address a"""
    def fam(e):
        e = wide(e)
        if e[0] not in ('ld', 'load'):
            return False
        at = e[1]
        if at[0] == 'fld' and at[3] in ('sa_family', 'sin_family', 'sin6_family', 'ss_family', 'f0'):
            at = at[1]
        return same(at, a)              # the family is what an address begins with
    is6 = None
    for k, v in list(T.F.items()):
        if k[0] == 'eq' and k[2] == ('int', AF_INET6) and fam(k[1]):
            is6 = v
    ln = wide(ln)
    if ln[0] == 'select':
        c = ln[1]
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and fam(c[2]) and c[3] == ('int', AF_INET6):
            a6, a4 = (ln[2], ln[3]) if c[1] == 'eq' else (ln[3], ln[2])
            return a6 == ('int', 28) and a4 in (('int', 16), ('int', 28))
        return False
    if ln[0] == 'int':
        if ln[1] >= 28:
            return ln[1] <= 128 and is6 is True
        return ln[1] == 16 and is6 is False
    return False


def same(a, b):
    strip = lambda e: strip(e[1]) if e[0] == 'fld' and e[3] in (None, 'sa', 'sin', 'sin6', 'storage') else e
    return nodest(strip(a)) == nodest(strip(b))


def send(R):
    R.cur = 'send'
    m = R.prog.std()
    n0 = 0
    for fn in funcs(m):
        if not any(name(i) == 'sendto' for i in fn.instrs()):
            continue
        n0 += 1
        R.saw(fn)
        pub = fn.name in ('udp_send', 'async_sendto')

        def step(x, i, T):
            if i.op == 'call' and name(i) == 'sendto':
                o = [T.ev(k) for k in i.ops]
                none = o[4] == ('int', 0) or T.null(o[4]) is True or any(k[0] == 'eq' and k[2] == ('int', 0) and nodest(k[1]) == nodest(o[4]) and v is True for k, v in T.F.items()) or any(nodest(k) == nodest(o[4]) and v == ('int', 0) for k, v in T.K.items())
                R.check(none or family(T, o[4], o[5]), fn, i.where(), 'the length is not that of the address the datagram goes to', trace=T.trace())
                if pub:
                    R.check(wide(o[1]) == ('arg', 1) and wide(o[2]) == ('arg', 2), fn, i.where(), 'not exactly the bytes asked for are sent', trace=T.trace())
                    fl = o[3]
                    R.check(fl[0] in ('ld', 'load') and fl[1][0] == 'fld' and fl[1][3] == 'flags', fn, i.where(), 'the flags are not those of the packet', trace=T.trace())
                    ad = o[4]
                    while ad[0] == 'fld' and ad[3] in (None, 'sa', 'sin', 'sin6', 'storage'):
                        ad = ad[1]
                    R.check(none or ad[0] in ('ld', 'load') and ad[1][0] == 'fld' and ad[1][3] == 'addr' and nodest(ad[1][1]) == nodest(fl[1][1]), fn, i.where(), 'the datagram does not go to the address in its packet', trace=T.trace())
                if fn.name == 'udp_send':
                    R.check(fl[1][1] == ('arg', 0), fn, i.where(), 'another packet is answered', trace=T.trace())
            return x
        Track(fn, step=step, x0=0).run()
    R.floor(n0, 1, 'functions that send datagrams')
    # the address udp_to() sets is the one it was given
    fn = m.fns['udp_to']
    R.saw(fn)
    stored = []
    for i in fn.instrs():
        if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'flags'):
            stored.append(i)
            R.check(S(fn.ex(i.ops[0])) == ('arg', 2), fn, i.where(), 'the flags are not those given')
    R.check(stored, fn, fn.order[0].ins[0].where(), 'the flags given are not kept')


def to(R):
    from rules.p18 import cstr
    R.cur = 'to'
    m = R.prog.std()
    fn = m.fn('udp_to')
    R.saw(fn)
    at = lambda a: a[1] if a[0] in ('ld', 'load') else None

    def own_record(a):
        """the record of the socket given: what its entry in the table of descriptors points to"""
        a = nodest(a)
        return a[0] == 'load' and field_of(a[1], 'udp') and any(y[0] == 'idx' and y[2] == ('arg', 0) for y in walk(a[1]))

    def bare(a, d=None):
        """an address without the members it is reached by; what the record holds now, where it was read back"""
        while a[0] == 'fld' and a[3] in (None, 'storage', 'sa', 'sin', 'sin6', 'sun'):
            a = a[1]
        if d and 'addr' in d and at(a) and at(a)[0] == 'fld' and at(a)[3] == 'addr' and own_record(at(a)[1]):
            return bare(d['addr'])
        return a

    # what is known: host, port (where), addr (where), text (buffer: with the port / without), read (from text), full
    def step(x, i, T):
        d = dict(x)
        n = name(i)

        def put(**kw):
            d.update(kw)
            return tuple(sorted(d.items()))
        if i.op == 'call' and n == 'str_parseip':
            o = [T.ev(k) for k in i.ops]
            R.check(o[0] == ('arg', 1), fn, i.where(), 'another address than the one given is read', trace=T.trace())
            return put(host=('call', n, i.dest), port=o[2])
        if i.op == 'call' and n in ('snprintf', 'sprintf'):
            o = [T.ev(k) for k in i.ops]
            k = 2 if n == 'snprintf' else 1
            form = cstr(m, o[k])
            rest = o[k + 1:]
            host = d.get('host')
            p = lambda e: d.get('port') is not None and at(e) == d['port'] or T.null(e) is True
            if form == '%s:%d' or form == '%s:%u' or form == '%s:%i':
                ok = len(rest) == 2 and rest[0] == host and p(rest[1])
                return put(**{'t:%r' % (root(o[0]),): 'both' if ok else 'else'})
            if form == '%s':
                return put(**{'t:%r' % (root(o[0]),): 'host' if rest == [host] else 'else'})
            return put(**{'t:%r' % (root(o[0]),): 'else'})
        if i.op == 'call' and n == 'async_parse_addr':
            o = [T.ev(k) for k in i.ops]
            what = 'host' if o[0] == d.get('host') else d.get('t:%r' % (root(o[0]),))
            noport = any(k[0] == 'eq' and k[2] == ('int', 0) and v is True and at(k[1]) is not None and at(k[1]) == d.get('port')
                         for k, v in T.F.items()) or any(at(k) is not None and at(k) == d.get('port') and v == ('int', 0) for k, v in T.K.items())
            R.check(what == 'both' or what == 'host' and noport, fn, i.where(),
                    'what is looked up is not the host and the port of the address given', trace=T.trace())
            return put(got=bare(o[1], d))
        if i.op == 'call' and COPY.match(n or ''):
            o = [T.ev(k) for k in i.ops[:3]]
            l = wide(o[2])
            return put(**{'c:%r' % (nodest(bare(o[0], d)),): bare(o[1], d) if l[0] == 'int' and l[1] >= 28 and 'got' in d else None})
        if i.op == 'call' and (n or '').startswith('llvm.memset'):
            return put(**{'c:%r' % (nodest(bare(T.ev(i.ops[0]), d)),): None})
        if i.op == 'store':
            a = T.ev(i.ops[1])
            if a[0] == 'fld' and a[3] == 'addr' and own_record(a[1]):
                return put(addr=T.ev(i.ops[0]))
        return x

    def ex(x, t, T, rv):
        d = dict(x)
        say = lambda c, msg: R.check(c, fn, t.where(), msg, trace=T.trace())
        say('addr' in d, 'the socket is not told where to send to')
        if 'addr' not in d:
            return
        a = bare(d['addr'])
        say(a[0] != 'alloca', 'the address is kept where it ends with the call')
        if any(y[0] == 'idx' for y in walk(a)):
            say(any(y[0] == 'idx' and y[2] == ('arg', 0) for y in walk(a)), 'the address is kept with another descriptor')
        c = d.get('c:%r' % (nodest(a),))
        say(c is not None and c == d.get('got') or d.get('got') == a, 'the address the socket sends to is not, or not all of, the one that was read')
    Track(fn, step=step, exit=ex, x0=()).run()


def life(R):
    R.cur = 'life'
    m = R.prog.std(keep=['udp_message'])
    fn = m.fns['udp_message']
    R.saw(fn)

    def asked(T):
        for k, v in T.F.items():
            if k[0] == 'eq' and k[2] == ('int', 0) and k[1][0] in ('ld', 'load') and field_of(k[1][1], 'message_set'):
                return not v
        return None

    # x = (message_set when first released or cleared, cleared, deferred fields)
    def step(x, i, T):
        st, cl, df = x
        if st is None:
            st = asked(T)
        if i.op == 'store' and field_of(T.ev(i.ops[1]), 'message_set'):
            return (st, T.ev(i.ops[0]) == ('int', 0), df)
        if i.op == 'call' and name(i) in ('defer_free', 'events_free', 'free'):
            a = T.ev(i.ops[0])
            f = a[1][3] if a[0] in ('ld', 'load') and a[1][0] == 'fld' else None
            R.check(name(i) == 'defer_free', fn, i.where(), 'what the caller is about to use is released', trace=T.trace())
            R.check(f in ('message', 'addr') and f not in df, fn, i.where(), 'something else, or the same twice, is released', trace=T.trace())
            return (st, cl, df | {f})
        return x

    def ex(x, t, T, rv):
        st, cl, df = x
        R.check(not df or st is True, fn, t.where(), 'message and address are released although they were before', trace=T.trace())
        R.check(not df or df == {'message', 'addr'}, fn, t.where(), 'only one of message and address is released', trace=T.trace())
        R.check(bool(df) == bool(cl), fn, t.where(), 'message and address are marked as released and are not, or are and are not marked', trace=T.trace())
        R.check(rv is None or rv[0] in ('ld', 'load') and field_of(rv[1], 'message'), fn, t.where(), 'what is given back is not the message', trace=T.trace())
        if st is True and not df:
            R.check(any(k[0] == 'eq' and k[2] == ('int', 0) and v and k[1][0] in ('ld', 'load') and field_of(k[1][1], 'message') for k, v in T.F.items()), fn, t.where(), 'the message is never released', trace=T.trace())
        elif not df:
            R.ok('%s: nothing to release' % fn.name)
    Track(fn, step=step, exit=ex, x0=(None, False, frozenset())).run()

    # the task that handles a datagram
    n = 0
    for fn in funcs(m):
        if not any(i.op == 'call' and name(i) in ('launch', 'create_task', 'async_task', 'go') and any(S(fn.ex(o))[0] in ('g', 'fn') for o in i.ops if isinstance(o, tuple)) for i in fn.instrs()):
            continue
        if fn.name != 'udp_handler':
            continue
        for i in fn.instrs():
            if i.op != 'call':
                continue
            js = [S(fn.ex(o)) for o in i.ops if isinstance(o, tuple)]
            for k, e in enumerate(js):
                t = m.fns.get(e[1]) if e[0] in ('g', 'fn') and isinstance(e[1], str) else None
                if t is not None and len(t.args) == 1:
                    n += 1
                    handles(R, m, fn, t, js[k + 2:])
    R.check(n >= 1, m.fns['udp_handler'], m.fns['udp_handler'].order[0].ins[0].where(), 'no task is made for the handler')


def handles(R, m, fn, t, given):
    R.saw(t)
    pos = {e: k for k, e in enumerate(given)}
    kc, kh = pos.get(('arg', 1)), pos.get(('arg', 0))
    R.check(kc is not None and kh is not None, fn, fn.order[0].ins[0].where(), 'the task is not given the handler and the datagram')
    if kc is None or kh is None:
        return
    t.ensure()

    def elem(e):
        if e[0] not in ('ld', 'load'):
            return None
        a = e[1]
        while a[0] == 'fld':
            a = a[1]
        if a == ('arg', 0):
            return 0
        if a[0] == 'idx' and a[1] == ('arg', 0) and a[2][0] == 'int':
            return a[2][1]
        return None

    # x = (deferred the record, saw to the message, handled)
    def step(x, i, T):
        d, s, h = x
        if i.op != 'call':
            return x
        n = name(i)
        o = [T.ev(k) for k in i.ops if isinstance(k, tuple)]
        if n == 'defer_free' and o and elem(o[0]) == kc:
            R.check(not d, t, i.where(), 'the record is released twice', trace=T.trace())
            return (True, s, h)
        if n in ('events_free', 'free') and o and elem(o[0]) == kc:
            R.check(not d and h, t, i.where(), 'the record is released twice, or before its handler has it', trace=T.trace())
            return (True, s, h)
        if n == 'udp_message' and o and elem(o[0]) == kc:
            return (d, True, h)
        if n is None and i.attr.get('callee') and i.attr['callee'][0] != 'asm':
            c = T.ev(i.attr['callee'])
            if elem(c) == kh:
                R.check(o and elem(o[0]) == kc, t, i.where(), 'the handler is given something else', trace=T.trace())
                R.check(not h, t, i.where(), 'the handler is called twice', trace=T.trace())
                R.check(d and s, t, i.where(), 'the handler may throw: record and message are not yet sure to be released', trace=T.trace())
                return (d, s, True)
        return x

    def ex(x, tt, T, rv):
        R.check(x[2], t, tt.where(), 'the handler is not called', trace=T.trace())
        R.check(x[0], t, tt.where(), 'the record is not released', trace=T.trace())
        R.check(x[1], t, tt.where(), 'a message nobody asked for is not released', trace=T.trace())
    Track(t, step=step, exit=ex, x0=(False, False, False)).run()


def kind(R):
    R.cur = 'kind'
    m = R.prog.std()
    for nm in ('async_socket', 'async_bind', 'async_connect', 'async_accept'):
        fn = m.fns[nm]
        R.saw(fn)
        made = [i for i in fn.instrs() if i.op == 'call' and name(i) in ('socket', 'accept', 'accept4')]
        R.check(made, fn, fn.order[0].ins[0].where(), 'no socket is made')
        acc = nm == 'async_accept'

        # x = values in the record of the new socket: (unix, udp)
        def step(x, i, T):
            if i.op == 'call' and name(i) in ('socket', 'accept', 'accept4'):
                return (('call', name(i), i.dest), None, None)
            if i.op == 'store' and x:
                a = T.ev(i.ops[1])
                if a[0] == 'fld' and a[3] in ('uds', 'udp') and mentions(a, lambda y: y == x[0]):
                    v = T.ev(i.ops[0])
                    return (x[0], v, x[2]) if a[3] == 'uds' else (x[0], x[1], v)
            return x

        def ex(x, t, T, rv):
            if not x or rv is None or wide(rv) != x[0]:
                return
            R.check(x[2] is not None and (x[2] == ('int', 0) or T.null(x[2]) is True), fn, t.where(), 'a new socket may still have the udp record of an earlier one', trace=T.trace())
            u = x[1]
            R.check(u is not None and (u == ('int', 0) or T.null(u) is True or own(u)), fn, t.where(), 'a new socket may still have the unix record of an earlier one', trace=T.trace())
        Track(fn, step=step, exit=ex, x0=(), about=lambda q: isinstance(q, tuple) and mentions(q, lambda y: y[0] == 'call' and y[1] in ('socket', 'accept', 'accept4', 'events_calloc') or y == ('arg', 3)), limit=60000).run()
    # the answers: only when the record is there and marked
    kinds = {}
    for nm in ('socket_is_udp', 'socket_is_uds'):
        fn = m.fns[nm]
        R.saw(fn)
        field = 'udp' if nm.endswith('udp') else 'uds'
        yes = []

        def ex(x, t, T, rv):
            if rv is None or rv == ('int', 0):
                return
            seen = []
            todo = [rv] + ([k for k, v in T.F.items() if v] if rv[0] == 'int' else [])
            for e in todo:
                mentions(e, lambda y: seen.append(y) or False)
            rec = [k for k, v in T.F.items() if k[0] == 'eq' and k[2] == ('int', 0) and v is False and k[1][0] in ('ld', 'load') and field_of(k[1][1], field)]
            c = [y for y in seen if y[0] in ('cmp', 'eq') and any(isinstance(z, tuple) and z[0] == 'int' and z[1] > 1 for z in y[1:])]
            turned = [y for e in todo for y in walk(e) if y[0] == 'bin' and y[1] == 'xor']
            R.check(not any(y[0] == 'cmp' and y[1] == 'ne' and not any(q[2] == y or q[3] == y for q in turned) for y in c), fn, t.where(),
                    'a socket whose record bears another mark is said to be one', trace=T.trace())
            yes.append(t)
            for y in c:
                kinds.setdefault(nm, set()).add([z[1] for z in y[1:] if isinstance(z, tuple) and z[0] == 'int'][0])
            R.check(rec and c, fn, t.where(), 'a socket without a record of that kind is said to be one', trace=T.trace())
        Track(fn, exit=ex, x0=0).run()
        R.check(yes, fn, fn.order[0].ins[0].where(), 'no socket is ever said to be one')
    # the marks written are the ones looked for
    n = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'store':
                a = S(fn.ex(i.ops[1]))
                if a[0] == 'fld' and a[3] == 'type' and a[2] in ('udp_packet_s', 'af_unix_s') or \
                        a[0] in ('call', 'fld') and fn.name.startswith(('udp_', 'uds_', 'async_')) and a[0] == 'call' and a[1] in NEW:
                    v = S(fn.ex(i.ops[0]))
                    q = 'socket_is_uds' if fn.name in ('async_bind', 'async_connect', 'async_socket') else 'socket_is_udp'
                    n += 1
                    R.check(v[0] == 'int' and kinds.get(q) == {v[1]}, fn, i.where(), 'the mark of the record is not the one looked for')
    R.floor(n, 2, 'marks of records')


RULES = [start, recv, send, to, life, kind]

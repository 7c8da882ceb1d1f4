"""P32: whole files: copied, written and read to the end, nothing twice."""
from rules.common import *
from flow import *
from track import Track, Loop, root, nodest

TEXT = [
    ('copy', 'a copy moves every byte of the source once, and says it worked only when it did'),
    ('write', 'what is written is all of the text, into an empty file, and what the write reports is reported'),
    ('touch', 'touching a file makes it when it is not there and leaves it alone when it is'),
    ('read', 'what is read is all of the file, into a block that has room for it and a terminator'),
]
SEND = {'sendfile', 'sendfile64'}
STAT = {'fstat', 'fstat64', 'stat', 'stat64', 'lstat', 'lstat64', 'fs_stat', 'fs_fstat'}
O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 1, 2, 0o100, 0o200, 0o1000, 0o2000
NEWF = {'creat': None, 'open': 1, 'open64': 1, 'creat64': None, 'os_open': 1, 'fs_open': 1}


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def flags_new(f):
    return f is not None and f & 3 in (O_WRONLY, O_RDWR) and f & O_CREAT and f & O_TRUNC and not f & (O_APPEND | O_EXCL)


def is_size(e, st):
    """the size a stat call found, as it is"""
    while e[0] in ('zext', 'sext'):
        e = e[-1]
    return e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == 'st_size' and (st is None or root(e[1]) == st)


def total(e):
    """what is read from a size on the way to a bound"""
    return mentions(e, lambda y: isinstance(y, tuple) and is_size(y, None)) if e[0] not in ('ld', 'load') else is_size(e, None)


def copies(R, fn):
    R.cur = 'copy'
    R.saw(fn)
    loops = [Loop(fn, h).body for h in loop_headers(fn)]
    home = {id(i): b.name for b in fn.order for i in b.ins}
    # phis that start at nothing and grow by what each call moved
    sums = set()
    for b in fn.order:
        for i in b.ins:
            if i.op == 'phi':
                for v, p in i.attr['inc']:
                    t, c = lin(S(fn.ex(v)))
                    if not c and len(t) == 2 and all(k == 1 for k in t.values()) and ('phi', i.dest) in t and any(y[0] == 'call' and y[1] in SEND for y in t):
                        sums.add(('phi', i.dest))
    state = {'in': None, 'out': None, 'st': None}

    # x = (rounds begun, value of the position before the last call, its result, address of the position, facts before, size read from)
    def step(x, i, T):
        n = name(i)
        if i.op == 'call' and n in STAT and not x[0]:
            e = T.ev(i.ops[0])
            return x[:4] + ((e, root(T.ev(i.ops[1])), ('call', n, i.dest)),)
        if i.op == 'call' and n in SEND:
            R.check(any(home[id(i)] in l for l in loops), fn, i.where(), 'what one call leaves is not copied by another', trace=T.trace())
            out, inp, off = (T.ev(i.ops[k]) for k in (0, 1, 2))
            st = x[4]
            R.check(st is not None and st[0] == inp, fn, i.where(), 'the size that ends the copy is not that of the file copied from', trace=T.trace())
            R.check(inp[0] == 'call' and inp != out, fn, i.where(), 'the copy is not made from one file the function opened to another', trace=T.trace())
            cnt = T.ev(i.ops[3])
            R.check(cnt[0] != 'int' or cnt[1] > 0, fn, i.where(), 'nothing is asked to be moved', trace=T.trace())
            pos = None
            if off != ('int', 0):
                pre = T.mem(off)
                if not x[0]:
                    pre = pre if pre is not None else ('load', off)
                    R.check(pre == ('int', 0) or pre in sums, fn, i.where(), 'the copy does not start at the beginning', trace=T.trace())
                pos = off
            return (1, pre if pos else None, ('call', n, i.dest), pos, st)
        if i.op == 'store' and x[0] and x[3] is not None and T.ev(i.ops[1]) == x[3]:
            v = T.ev(i.ops[0])
            t, c = lin(v)
            good = v in sums or isload(v, lambda a: a == x[3]) or \
                not c and x[1] is not None and v == (x[2] if x[1] == ('int', 0) else None) or \
                not c and len(t) == 2 and x[2] in t and x[1] in t and all(k == 1 for k in t.values())
            R.check(good, fn, i.where(), 'the position the system has already advanced is moved again', trace=T.trace())
        return x

    def ex(x, t, T, rv):
        if x[0] != 1 or rv is None:
            return
        r = x[2]
        if rv[0] == 'int' and rv[1] != 0 or rv[0] != 'int' and T.null(rv) is False:
            return
        failed = T.fact(('lt', 's', r, ('int', 0))) is True or T.fact(('eq', r, ('int', -1))) is True or \
            (T.fact(('lt', 's', ('int', 0), r)) is False or T.fact(('lt', 's', r, ('int', 1))) is True) and T.null(r) is not True
        R.check(not failed, fn, t.where(), 'a copy that failed is reported as done', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(0, None, None, None, None), limit=60000).run()

    # the rounds end only when the size is reached or a call failed
    for h in loop_headers(fn):
        L = Loop(fn, h)
        if not any(name(i) in SEND for b in fn.order if b.name in L.body for i in b.ins):
            continue
        bound = [c for b in fn.order if b.name in L.body for i in b.ins if i.op == 'icmp' for c in [i] if any(total(S(fn.ex(o))) for o in i.ops)]
        phis = [i for b in fn.order if b.name == h for i in b.ins if i.op == 'phi' and any(p not in L.body and total(S(fn.ex(v))) for v, p in i.attr['inc'])]
        good = bool(phis)
        for c in bound:
            a, z = (S(fn.ex(o)) for o in c.ops)
            pr = c.attr['pred']
            if pr in ('slt', 'ult', 'sge', 'uge', 'ne', 'eq') and is_size(z, None) or pr in ('sgt', 'ugt', 'sle', 'ule', 'ne', 'eq') and is_size(a, None):
                good = True
            else:
                R.bad(fn, c.where(), 'the copy ends before, or goes on after, the size is reached')
        R.check(good, fn, fn.order[0].ins[0].where(), 'nothing compares what was copied with the size of the file')


def copy(R):
    R.cur = 'copy'
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        loops = [Loop(fn, h).body for h in loop_headers(fn)]
        if any(name(i) in SEND and (fn.name == 'copyfile' or any(b.name in l for l in loops)) for b in fn.order for i in b.ins):
            n += 1
            copies(R, fn)
    R.floor(n, 1, 'functions that copy a file')
    fn = m.fns.get('copyfile')
    if fn is None:
        return
    got = []
    for i in fn.instrs():
        if name(i) in NEWF and i.op == 'call':
            p = S(fn.ex(i.ops[0]))
            f = S(fn.ex(i.ops[NEWF[name(i)]])) if NEWF[name(i)] is not None else ('int', O_WRONLY | O_CREAT | O_TRUNC)
            f = f[1] if f[0] == 'int' else None
            got.append((p, f, i))
    src = [g for g in got if g[0] == ('arg', 0)]
    dst = [g for g in got if g[0] == ('arg', 1)]
    R.check(src and all(f is not None and f & 3 in (0, O_RDWR) and not f & O_TRUNC for _, f, _ in src), fn, (src or got)[0][2].where() if got else '?', 'the source is not opened for reading as it is')
    R.check(dst and all(flags_new(f) for _, f, _ in dst), fn, (dst or got)[0][2].where() if got else '?', 'the destination is not made new and empty')
    if src and dst:
        d = {('call', name(g[2]), g[2].dest): w for w, l in (('src', src), ('dst', dst)) for g in l}
        for i in fn.instrs():
            if name(i) in SEND:
                R.check(d.get(S(fn.ex(i.ops[0]))) == 'dst' and d.get(S(fn.ex(i.ops[1]))) == 'src', fn, i.where(), 'the copy is made the other way round')


def strip(e):
    while e[0] in ('trunc', 'zext', 'sext'):
        e = e[-1]
    return e


def write(R):
    R.cur = 'write'
    m = R.prog.std()
    fn = m.fns['fs_writefile']
    R.saw(fn)

    # x = (descriptor, the length asked for, the write's result, closed?, nothing to write)
    def step(x, i, T):
        n = name(i)
        if i.op != 'call':
            return x
        fd, ln, wr, cl = x
        if n == 'fs_open':
            f = T.ev(i.ops[1])
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'another file is opened', trace=T.trace())
            R.check(f[0] == 'int' and flags_new(f[1]), fn, i.where(), 'the file is not made, or not emptied, before the text is written', trace=T.trace())
            return (('call', n, i.dest), None, None, None)
        if n == 'strlen' and T.ev(i.ops[0]) == ('arg', 1):
            return (fd, ('call', n, i.dest), wr, cl)
        if n == 'fs_write':
            R.check(fd is not None and T.ev(i.ops[0]) == fd, fn, i.where(), 'the text is written to something else', trace=T.trace())
            R.check(T.ev(i.ops[1]) == ('arg', 1), fn, i.where(), 'something else is written', trace=T.trace())
            k = strip(T.ev(i.ops[2]))
            R.check(ln is not None and k == ln, fn, i.where(), 'not exactly the text is written', trace=T.trace())
            R.check(wr is None, fn, i.where(), 'the text is written twice', trace=T.trace())
            R.check(cl is None, fn, i.where(), 'the text is written after the file was closed', trace=T.trace())
            return (fd, ln, ('call', n, i.dest), cl)
        if n == 'fs_close':
            return (fd, ln, wr, ('call', n, i.dest))
        return x

    def ex(x, t, T, rv):
        fd, ln, wr, cl = x
        if rv is None:
            return
        v = strip(rv)
        if v[0] == 'int' and v[1] < 0:
            # "no": unless the write and the close both worked
            R.check(not (wr is not None and cl is not None and T.null(cl) is True), fn, t.where(), 'a text that was written is reported as an error', trace=T.trace())
            return
        empty = ln is not None and any(T.null(q) is True or any(T.fact(('lt', k, q, ('int', 1))) is True or T.fact(('lt', k, ('int', 0), q)) is False for k in 'su') for q in (ln, ('trunc', 32, ln)))
        R.check(v == wr or wr is None and (v == ln or v == ('int', 0)) and empty or wr is None and fd is None, fn, t.where(), 'what is reported is not what the write reported', trace=T.trace())
        R.check(fd is not None and cl is not None and T.null(cl) is True, fn, t.where(), 'success is reported for a file that could not be opened or closed', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(None, None, None, None), pure=('strlen',)).run()


def touch(R):
    R.cur = 'touch'
    m = R.prog.std(extra=['fs_writefile'])
    fn = m.fns['fs_touch']
    R.saw(fn)

    def step(x, i, T):
        n = name(i)
        if i.op != 'call':
            return x
        if n in NEWF:
            f = T.ev(i.ops[NEWF[n]]) if NEWF[n] is not None else ('int', O_WRONLY | O_CREAT | O_TRUNC)
            f = f[1] if f[0] == 'int' else None
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'another file is touched', trace=T.trace())
            R.check(f is not None and f & O_CREAT and not f & O_TRUNC, fn, i.where(), 'a file that is there is emptied, or one that is not there not made', trace=T.trace())
            return (('call', n, i.dest), None)
        if n in ('fs_close', 'close', 'os_close'):
            return (x[0], ('call', n, i.dest))
        if n in ('fs_write', 'write'):
            R.check(False, fn, i.where(), 'a file that is touched is written to', trace=T.trace())
        return x

    def ex(x, t, T, rv):
        if rv is None or rv[0] == 'int' and not rv[1]:
            return
        v = rv
        neg = [('eq', x[1], ('int', 0))] if x[1] else []
        R.check(x[0] is not None and x[1] is not None and (v[0] == 'int' and T.null(x[1]) is True or mentions(v, lambda y: y == x[1]) or v[0] == 'int' and any(T.fact(k) for k in neg)),
                fn, t.where(), 'success is reported for a file that was not made', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(None, None), pure=('strlen',)).run()


def read(R):
    R.cur = 'read'
    m = R.prog.std()
    fn = m.fns['fs_filesize']
    R.saw(fn)

    def step0(x, i, T):
        if i.op == 'call' and name(i) in STAT:
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'the size of another file is asked for', trace=T.trace())
            return (root(T.ev(i.ops[1])), ('call', name(i), i.dest))
        return x

    def ex0(x, t, T, rv):
        if rv is None:
            return
        ok = x is not None and x != () and T.null(x[1]) is True
        R.check(is_size(rv, x[0]) and ok if x else rv == ('int', 0), fn, t.where(), 'what is reported is not the size of the file', trace=T.trace()) if not (rv == ('int', 0) and not ok) else R.ok('none')
    Track(fn, step=step0, exit=ex0, x0=()).run()

    fn = m.fns['fs_readfile']
    R.saw(fn)

    # x = (length, descriptor, block, read?)
    def step(x, i, T):
        n = name(i)
        if i.op != 'call':
            return x
        ln, fd, bl, rd, no = x
        if n == 'fs_filesize':
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'the size of another file is taken', trace=T.trace())
            return (('call', n, i.dest), fd, bl, rd, no)
        if n == 'fs_open':
            f = T.ev(i.ops[1])
            R.check(T.ev(i.ops[0]) == ('arg', 0), fn, i.where(), 'another file is opened', trace=T.trace())
            R.check(f[0] == 'int' and f[1] & 3 in (0, O_RDWR) and not f[1] & (O_TRUNC | O_CREAT | O_APPEND), fn, i.where(), 'the file is not opened for reading as it is', trace=T.trace())
            return (ln, ('call', n, i.dest), bl, rd, no)
        if n in ('events_calloc', 'calloc', 'events_malloc', 'malloc'):
            zero = n in ('events_calloc', 'calloc')
            sz = [T.ev(o) for o in i.ops]
            if len(sz) == 2:
                sz = [s for s in sz if s != ('int', 1)] or [('int', 1)]
            R.check(ln is not None and len(sz) == 1 and roomy(sz[0], ln) and zero, fn, i.where(), 'there is no room for the file and a terminator', trace=T.trace())
            return (ln, fd, ('call', n, i.dest), rd, no)
        if n == 'defer_free' and bl is not None and T.ev(i.ops[0]) == bl:
            return (ln, fd, bl, rd, ('call', n, i.dest))    # says whether the block is there
        if n == 'fs_read':
            R.check(fd is not None and T.ev(i.ops[0]) == fd, fn, i.where(), 'something else is read', trace=T.trace())
            R.check(bl is not None and T.ev(i.ops[1]) == bl, fn, i.where(), 'the file is not read to the start of the block', trace=T.trace())
            R.check(ln is not None and strip(T.ev(i.ops[2])) == ln, fn, i.where(), 'not the whole file, or more than there is room for, is read', trace=T.trace())
            return (ln, fd, bl, True, no)
        return x

    def ex(x, t, T, rv):
        ln, fd, bl, rd, no = x
        if rv is None:
            return
        if bl is not None and rv == bl and T.null(bl) is not True:
            R.check(rd or no is not None and T.null(no) is True, fn, t.where(), 'the block is given back without the file in it', trace=T.trace())
        elif rd:
            R.bad(fn, t.where(), 'the file was read but something else is given back', T.trace())
        else:
            R.check(rv == ('int', 0) or T.null(rv) is True, fn, t.where(), 'something other than the file is given back', trace=T.trace())
    Track(fn, step=step, exit=ex, x0=(None, None, None, None, None)).run()


def roomy(e, ln):
    """at least one more than ln bytes"""
    if e[0] == 'bin' and e[1] == 'and' and e[3][0] == 'int' and e[3][1] < 0:
        # rounded down to a multiple of -k: a power of two
        k = -e[3][1]
        t, c = lin(e[2])
        return k & (k - 1) == 0 and t.get(ln) == 1 and len(t) == 1 and c - (k - 1) >= 1
    t, c = lin(e)
    return t.get(ln) == 1 and len(t) == 1 and c >= 1


RULES = [start, copy, write, touch, read]

"""P19: blocking file, stream and name operations run on a worker with exactly the caller's arguments."""
from rules.common import *

#: public function -> operations its job performs: (names, source of each operand); a source is the public function's
#: parameter index, ('str', text), ('of', k) = result of the k-th operation, or None = not compared
ALIAS = {'open': {'open', 'os_open', 'open64'}, 'read': {'read', 'os_read'}, 'write': {'write', 'os_write'},
         'close': {'close', 'os_close'}, 'sendfile': {'sendfile', 'sendfile64'}, 'stat': {'stat', 'stat64'},
         'fstat': {'fstat', 'fstat64'}, 'fopen': {'fopen', 'fopen64'}, 'mkdir': {'mkdir', 'os_mkdir'}}
TABLE = {
    'fs_open': [('open', (0, 1, 2))], 'fs_read': [('read', (0, 1, 2))], 'fs_write': [('write', (0, 1, 2))],
    'fs_sendfile': [('sendfile', (0, 1, 2, 3))], 'fs_close': [('close', (0,))], 'fs_unlink': [('unlink', (0,))],
    'fs_rmdir': [('rmdir', (0,))], 'fs_mkdir': [('mkdir', (0, 1))], 'fs_stat': [('stat', (0, 1))],
    'fs_fstat': [('fstat', (0, 1))], 'fs_access': [('access', (0, 1))], 'fs_rename': [('rename', (0, 1))],
    'fs_copyfile': [('copyfile', (0, 1))], 'fs_chmod': [('chmod', (0, 1))], 'fs_fgetc': [('fgetc', (0,))],
    'fs_fgets': [('fgets', (0, 1, 2))], 'fs_fwrite': [('fwrite', (0, 1, 2, 3))], 'fs_fopen': [('fopen', (0, 1))],
    'fs_fread': [('fread', (0, 1, 2, 3))], 'fs_fclose': [('fclose', (0,))],
    'async_gethostbyname': [('gethostbyname', (0,))], 'async_getnameinfo': [('getnameinfo', (0, 1, 2, 3, 4, 5, 6))],
    'async_getaddrinfo': [('getaddrinfo', (0, 1, 2, 3))], 'async_getentropy': [('getentropy', (0, 1))],
    'async_fprintf': [('fopen', (0, 1)), ('fprintf', (('of', 0), ('str', '%s'), 2)), ('fclose', (('of', 0),))],
    'async_fwrite': [('fopen', (0, 1)), ('fwrite', (2, 3, 4, ('of', 0))), ('fclose', (('of', 0),))],
    'promise_read': [('read', (1, 2, 3))], 'promise_fgets': [('fgets', (1, 2, 3))], 'promise_fgetc': [('fgetc', (1,))],
    'promise_fclose': [('fclose', (1,))], 'promise_fopen': [('fopen', (0, 1))], 'promise_popen': [('popen', (0, 1))],
    'promise_pclose': [('pclose', (1,))], 'promise_fwrite': [('fwrite', (1, 2, 3, 4))],
    'promise_fprintf': [('fprintf', (1, ('str', '%s'), 2))],
}
#: the operation whose result is reported
REPORT = {'async_fprintf': 1, 'async_fwrite': 1}
HELP = ('promise_fopen', 'promise_popen')
SUBMIT = {'queue_work': 0, 'promise_work': 0}
WAIT = {'queue_get', 'promise_wait'}
BLOCKING = {a for k, v in ALIAS.items() for a in v} | {n for ops in TABLE.values() for n, _ in ops} | {
    'rename', 'getaddrinfo', 'getnameinfo', 'gethostbyname', 'popen', 'pclose', 'lstat', 'opendir', 'readdir'}
EXT_WIDTH = {}


def bits(ty):
    ty = (ty or '').split(' ')[0]
    return 64 if ty == 'ptr' else int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else None


def chain(fn, v):
    """(origin instruction or operand, narrowest width) through casts and one-use copies"""
    w = 64
    n = 0
    while v[0] == 'ssa' and v[1] in fn.defs and n < 20:
        d = fn.defs[v[1]]
        b = bits(d.ty)
        if b:
            w = min(w, b)
        if d.op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint'):
            v = d.ops[0]
            n += 1
            continue
        return d, w
    return v, w


def argidx(e):
    """k when e is the value of args[k] of a job"""
    e = S(e)
    if e[0] != 'load':
        return None
    a = e[1]
    while a[0] == 'fld' and a[1][0] in ('arg', 'idx'):
        a = a[1]
    if a == ('arg', 0):
        return 0
    if a[0] == 'idx' and a[1] == ('arg', 0) and a[2][0] == 'int':
        return a[2][1]
    return None


def cstr(m, e):
    if e[0] == 'g':
        b = m.gbytes(e[1])
        if b is not None:
            return bytes(b).split(b'\0')[0].decode('latin1')
    return None


def view(R):
    return R.prog.std(extra=HELP)


def job_ops(R, m, w, spec, pub):
    """the operand sources of each operation in the job: list of (instr, [arg index | literal | ('of',k)], widths)"""
    out = []
    for k, (nm, src) in enumerate(spec):
        names = ALIAS.get(nm, {nm})
        cs = [i for i in w.instrs() if name(i) in names]
        if not cs:
            R.bad(w, w.name, 'the job of %s() does not perform %s()' % (pub, nm))
            return None
        out.append(cs)
    return out


def agree(R):
    R.rule('args', 'an offloaded operation gets, in the worker, exactly the caller\'s arguments in their places and at full '
                   'width: the number of packed arguments matches, and each operand of the operation traces back to the '
                   'corresponding parameter')
    m = view(R)
    n = 0
    for pub, spec in sorted(TABLE.items()):
        fn = m.fn(pub)
        R.saw(fn)
        subs = [i for i in fn.instrs() if name(i) in SUBMIT]
        if not subs:
            R.bad(fn, fn.name, '%s() does not hand the operation to a worker' % pub)
            continue
        for sub in subs:
            n += 1
            a = sub.ops
            job = S(fn.ex(a[1]))
            cnt = fn.ex(a[2])
            given = a[3:]
            if job[0] != 'g' or job[1] not in m.fns:
                R.bad(fn, sub.where(), 'the job is not a known function')
                continue
            if cnt[0] != 'int' or cnt[1] > len(given):
                R.bad(fn, sub.where(), 'the number of packed arguments (%s) is not the number given (%d)' % (show(cnt), len(given)))
                continue
            w = m.fn(job[1])
            R.saw(w)
            ops = job_ops(R, m, w, spec, pub)
            if ops is None:
                continue
            for i in w.instrs():
                if i.op == 'load':
                    k = argidx(('load', w.ex(i.ops[0])))
                    if k is not None and k >= cnt[1]:
                        R.bad(fn, sub.where(), 'the job reads argument %d of %d' % (k + 1, cnt[1]))
            for k, (nm, src) in enumerate(spec):
                for c in ops[k]:
                    for j, want in enumerate(src):
                        if want is None:
                            continue
                        if j >= len(c.ops):
                            R.bad(w, c.where(), '%s() is called with too few arguments' % nm)
                            continue
                        e = w.ex(c.ops[j])
                        if isinstance(want, tuple) and want[0] == 'str':
                            R.check(cstr(m, S(e)) == want[1], w, c.where(), 'the text is not written through "%%s" by %s()' % nm)
                            continue
                        if isinstance(want, tuple) and want[0] == 'of':
                            alts = [x for x, _ in phi_values(w, e, set())]
                            R.check(all(x[0] == 'call' and x[2] in [o.dest for o in ops[want[1]]] or x == ('int', 0) for x in alts),
                                    w, c.where(), '%s() works on another stream than the one opened' % nm)
                            continue
                        ai = argidx(e)
                        if ai is None or ai >= len(given):
                            R.bad(w, c.where(), 'argument %d of %s() is not one of the caller\'s arguments' % (j + 1, nm))
                            continue
                        gv = S(fn.ex(given[ai]))
                        if gv != ('arg', want):
                            R.bad(fn, sub.where(), 'argument %d of %s() is not the caller\'s %s' % (
                                j + 1, nm, fn.args[want] if want < len(fn.args) else want))
                            continue
                        o, wd = chain(w, c.ops[j])
                        o2, wd2 = chain(fn, given[ai])
                        full = min(bits(c.attr['tys'][j]) or 64, argwidth(fn, want) or 64)
                        if nm in ('mkdir', 'chmod', 'open') and j == len(src) - 1 and j > 0:
                            full = min(full, 16)
                        R.check(min(wd, wd2) >= full, w, c.where(), 'argument %d of %s() is cut to %d bits' % (j + 1, nm, min(wd, wd2)),
                                site='%s: %s arg %d' % (pub, nm, j + 1))
    R.floor(n, 30, 'offloaded operations')


def argwidth(fn, k):
    ty = getattr(fn, 'argty', None)
    if ty and k < len(ty):
        return bits(ty[k])
    return None


def report(R):
    R.rule('result', 'the caller gets the operation\'s own result, at full width, once the worker has finished it; nothing is '
                     'performed or reported without the operation except for missing arguments')
    m = view(R)
    for pub, spec in sorted(TABLE.items()):
        fn = m.fn(pub)
        subs = [i for i in fn.instrs() if name(i) in SUBMIT]
        for sub in subs:
            job = S(fn.ex(sub.ops[1]))
            if job[0] != 'g' or job[1] not in m.fns:
                continue
            w = m.fn(job[1])
            rk = REPORT.get(pub, 0)
            names = ALIAS.get(spec[rk][0], {spec[rk][0]})
            closes = [k for k, (nm, _) in enumerate(spec) if nm == 'fclose' and k > 0]

            # state: (result of the operation or None, guard passed, stream open)
            def step(s, i, wk, w=w):
                res, guard, opened = s
                if name(i) in names:
                    if res is not None:
                        R.bad(w, i.where(), '%s() is performed twice' % name(i), wk.trace())
                    return (i.dest, guard, opened)
                if closes and name(i) in ALIAS['fopen']:
                    return (res, guard, i.dest)
                if closes and name(i) == 'fclose':
                    if not opened:
                        R.bad(w, i.where(), 'a stream is closed twice or without being open', wk.trace())
                    return (res, guard, None)
                return s

            def edge(s, key, pol, i, wk):
                res, guard, opened = s
                r = truth(key, pol, lambda e: e[0] == 'call' and e[1] == 'str_is_empty')
                if r:
                    guard = True
                r = truth(key, pol, lambda e: argidx(e) is not None)
                if r is False:
                    guard = True
                r = truth(key, pol, lambda e: e[0] == 'call' and e[2] == res)
                if r is False and res:
                    return ('null', guard, opened)
                r = truth(key, pol, lambda e: e[0] == 'call' and e[1] in ALIAS['fopen'])
                if r is False and closes:
                    guard, opened = True, None
                return (res, guard, opened)

            def ex(s, t, wk, w=w):
                res, guard, opened = s
                v = wk.rawval(t.ops[0]) if t.ops else None
                if res is None:
                    if not guard:
                        R.bad(w, t.where(), 'the job ends without performing %s()' % sorted(names)[0], wk.trace())
                    elif v != ('int', 0):
                        R.bad(w, t.where(), 'a job that could not run reports something', wk.trace())
                    return
                if opened:
                    R.bad(w, t.where(), 'the opened stream is not closed', wk.trace())
                okv = v and (v[0] == 'call' and v[2] == res or res == 'null' and (v == ('int', 0) or v[0] == 'call' and v[1] in names))
                if not okv and closes and v == ('int', 0):
                    okv = True       # nothing written
                if not okv:
                    R.bad(w, t.where(), 'the job does not return the result of %s()' % sorted(names)[0], wk.trace())
                else:
                    R.ok('%s: return' % w.name)
            Walker(w, step, edge=edge, exit=ex, all_phis=True).run((None, False, None))
            # width of the reported result
            d = next((i for i in w.instrs() if name(i) in names), None)
            full = min(bits(d.ty) or 64, retwidth(fn) or 64) if d is not None else 0
            for f, what in ((w, 'job'), (fn, 'caller')):
                for i in f.instrs():
                    if i.op != 'ret' or not i.ops:
                        continue
                    for v, wd in leaves(f, i.ops[0]):
                        if getattr(v, 'op', None) == 'call' and (name(v) in names or name(v) in WAIT):
                            R.check(wd >= full, f, i.where(), 'the result of %s() is cut to %d bits' % (sorted(names)[0], wd),
                                    site='%s: result width' % f.name)

        # public side: wait for what was submitted, on every path that submitted
        def step(s, i, wk, fn=fn):
            p, got = s
            if name(i) in SUBMIT:
                if p:
                    R.bad(fn, i.where(), 'the operation is submitted twice', wk.trace())
                if name(i) == 'promise_work' and wk.val(i.ops[0]) != ('arg', 0):
                    R.bad(fn, i.where(), 'the caller\'s promise is not the one used', wk.trace())
                return (i.dest, got)
            if name(i) in WAIT:
                v = wk.rawval(i.ops[0])
                if v[0] != 'call' or v[2] != p:
                    R.bad(fn, i.where(), 'waits for something else than the submitted operation', wk.trace())
                return (p, i.dest)
            if name(i) in BLOCKING:
                R.bad(fn, i.where(), 'a blocking operation runs on the calling thread', wk.trace())
            return s

        def edge(s, key, pol, i, wk):
            return s

        def ex(s, t, wk, fn=fn, pub=pub):
            p, got = s
            v = wk.rawval(t.ops[0]) if t.ops else None
            if p is None:
                if pub in ('promise_fclose', 'promise_pclose', 'fs_close'):
                    if v is not None and v[0] == 'int' and v[1] in (-1, -2, -3, -4, -95, 0xffffffff) or v and v[0] == 'int' and v[1] < 0:
                        R.ok('%s: not performed' % fn.name)
                    else:
                        R.bad(fn, t.where(), 'reports success although nothing was done', wk.trace())
                else:
                    R.bad(fn, t.where(), 'returns without performing the operation', wk.trace())
                return
            if pub in HELP:
                R.check(v and v[0] == 'call' and v[2] == p, fn, t.where(), 'the promise of the operation is not returned', trace=wk.trace())
                return
            if got is None:
                R.bad(fn, t.where(), 'returns before the worker has finished', wk.trace())
                return
            R.check(v and v[0] == 'call' and v[2] == got, fn, t.where(), 'the caller does not get the operation\'s result', trace=wk.trace())
        Walker(fn, step, edge=edge, exit=ex, all_phis=True).run((None, None))


def retwidth(fn):
    for i in fn.instrs():
        if i.op == 'ret':
            return bits(i.ty)
    return None


def leaves(fn, v, seen=None):
    """(instruction or operand, narrowest width) for every value that may flow into v through casts and phis"""
    seen = set() if seen is None else seen
    d, w = chain(fn, v)
    if getattr(d, 'op', None) == 'phi':
        if d.dest in seen:
            return
        seen.add(d.dest)
        for x, _ in d.attr['inc']:
            for l, w2 in leaves(fn, x, seen):
                yield l, min(w, w2)
    elif getattr(d, 'op', None) == 'load' or getattr(d, 'op', None) is not None:
        yield d, w
    else:
        yield d, w


def offthread(R):
    R.rule('offthread', 'outside the jobs no asynchronous file, stream or name function performs a blocking operation itself; '
                        'when the caller is a task, name resolution goes through the asynchronous form')
    m = view(R)
    jobs = set()
    for fn in funcs(m):
        for i in fn.instrs():
            if name(i) in SUBMIT:
                j = S(fn.ex(i.ops[1]))
                if j[0] == 'g':
                    jobs.add(j[1])
    n = 0
    for fn in funcs(m):
        if fn.name in jobs or not fn.name.startswith(('fs_', 'async_', 'promise_')):
            continue
        if fn.name in ('async_read', 'async_read2', 'async_write', 'async_sendto', 'async_recvfrom'):
            continue
        n += 1
        R.saw(fn)
        names = [i for i in fn.instrs() if name(i) in BLOCKING and name(i) not in ALIAS['close']]
        for i in names:
            if name(i) in ('getaddrinfo', 'getnameinfo'):
                continue
            R.bad(fn, i.where(), '%s() runs on the calling thread' % name(i))
        gi = [i for i in names if name(i) in ('getaddrinfo', 'getnameinfo')]
        if gi:
            def step(s, i, w, fn=fn):
                if i in gi and s != 'plain':
                    R.bad(fn, i.where(), '%s() blocks the thread of a running task' % name(i), w.trace())
                return s

            def edge(s, key, pol, i, w):
                r = truth(key, pol, lambda e: e[0] == 'call' and e[1] in ('events_is_active', 'tasks_is_active'))
                return 'plain' if r is False else s
            Walker(fn, step, edge=edge).run('')
        R.ok('%s: no blocking operation' % fn.name)
        # a name lookup chosen at run time
        for i in fn.instrs():
            if i.op == 'call' and i.attr['name'] is None:
                for e, ch in phi_values(fn, fn.ex(i.attr['callee']), set()):
                    for x in walk(e):
                        pass
    R.floor(n, 30, 'asynchronous functions')


RULES = [agree, report, offthread]

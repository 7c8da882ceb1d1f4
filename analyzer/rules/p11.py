"""P11: promises and thread futures."""
from rules.common import *
from track import Track, nodest

PR = '_promise'


def promise_of(a, *path):
    """base expression of the promise when a is the address of promise field path (any nesting)"""
    e = a
    for f in reversed(path):
        if e[0] == 'idx' and e[2] == ('int', 0):
            e = e[1]
        if e[0] != 'fld' or e[3] != f:
            return None
        e = e[1]
    return base(e)


def base(e):
    while e[0] == 'idx' and e[2] == ('int', 0):
        e = e[1]
    return e


def pfield(a):
    """(base, field path) of an address inside a promise, else None"""
    path = []
    e = a
    while e[0] in ('fld', 'idx'):
        if e[0] == 'fld':
            path.append(e[3])
            if e[2] == PR:
                return base(e[1]), tuple(reversed(path))
        elif e[2] != ('int', 0):
            return None
        e = e[1]
    return None


def done_write(i, w=None, fn=None):
    """(base, value) when i writes a promise's done flag"""
    if i.op == 'atomicrmw' or i.op == 'store':
        o = i.ops[0] if i.op == 'atomicrmw' else i.ops[1]
        v = i.ops[1] if i.op == 'atomicrmw' else i.ops[0]
        a = w.val(o) if w else S(fn.ex(o))
        p = pfield(a)
        if p and p[1][0] == 'done':
            return p[0], (w.val(v) if w else S(fn.ex(v)))
    return None


def touch(i, w):
    """(base, path, 'r'|'w') when i reads or writes inside a promise"""
    if i.op == 'load':
        p = pfield(w.val(i.ops[0]))
        return p and (p[0], p[1], 'r')
    if i.op == 'store':
        p = pfield(w.val(i.ops[1]))
        return p and (p[0], p[1], 'w')
    return None


def setter(R):
    R.rule('set', 'a promise is set by storing its outcome under its lock, then releasing the lock, then announcing it '
                  'done, exactly once on every path, and it is not touched any more afterwards (its waiter may have '
                  'released it); the outcome is the value given (an array is copied), or the exception')
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        if not any((d := done_write(i, fn=fn)) and d[1] == ('int', 1) for i in fn.instrs()):
            continue
        R.saw(fn)
        n += 1
        whole = fn.name == 'promise_set'

        # state: (lock depth, base announced, outcome stored, array flag, err stored, literals: null?, invalid?)
        def step(s, i, w, fn=fn, whole=whole):
            dep, ann, out, arr, er, nul, inv, cp = s
            k = is_lock(i, w)
            if k and (p := pfield(w.val(i.ops[0]))) and p[1] == ('mutex',):
                if ann:
                    R.bad(fn, i.where(), 'the promise is still used after it was announced done', w.trace())
                if (dep, k) in ((1, 1), (0, -1)):
                    R.bad(fn, i.where(), 'the promise\'s lock is %s' % ('taken twice' if k > 0 else 'released without being held'), w.trace())
                return (dep + k, ann, out, arr, er, nul, inv, cp)
            d = done_write(i, w)
            if d:
                if ann:
                    R.bad(fn, i.where(), 'the promise is announced twice', w.trace())
                if dep:
                    R.bad(fn, i.where(), 'the promise is announced done while its lock is held: its waiter may release it', w.trace())
                return (dep, True, out, arr, er, nul, inv, cp)
            t = touch(i, w)
            if i.op == 'store' and field_of(w.val(i.ops[1]), 'err') and mentions(w.val(i.ops[1]), lambda x: x[0] == 'fld' and x[2] == PR):
                t = (None, ('scope', 'err'), 'w')
            if t:
                b, path, rw = t
                if ann:
                    R.bad(fn, i.where(), 'the promise is still used after it was announced done', w.trace())
                if rw == 'w':
                    if dep != 1:
                        R.bad(fn, i.where(), 'the outcome is stored without holding the promise\'s lock', w.trace())
                    if path == ('result', 'value') or path[:2] == ('result', 'value'):
                        v = w.val(i.ops[0])
                        if out:
                            R.bad(fn, i.where(), 'the outcome is stored twice', w.trace())
                        if whole and v != ('arg', 1) and not (v[0] == 'call' and v[1] == 'data_tuple' and cp):
                            R.bad(fn, i.where(), 'what is stored is not the value given', w.trace())
                        return (dep, ann, 'copy' if v[0] == 'call' else 'plain', arr, er, nul, inv, cp)
                    if path == ('result', 'is_array'):
                        return (dep, ann, out, w.val(i.ops[0]), er, nul, inv, cp)
                    if path == ('erred',):
                        if whole and inv is not True:
                            R.bad(fn, i.where(), 'a valid value is reported as an error', w.trace())
                        return (dep, ann, out, arr, True, nul, inv, cp)
                    if path == ('scope', 'err'):
                        return (dep, ann, 'err', arr, er, nul, inv, cp)
            if i.op == 'call' and i.attr['name'] == 'data_copy':
                return (dep, ann, out, arr, er, nul, inv, w.val(i.ops[1]) == ('arg', 1))
            return s

        def edge(s, key, pol, i, w):
            dep, ann, out, arr, er, nul, inv, cp = s
            me = lambda e: e == ('arg', 1)
            r = truth(key, pol, me)
            if r is not None:
                nul = not r
            r = eqlit(key, pol, me, ('int', -1))
            if r is not None:
                inv = r
            return (dep, ann, out, arr, er, nul, inv, cp)

        def ex(s, t, w, fn=fn, whole=whole):
            dep, ann, out, arr, er, nul, inv, cp = s
            if dep:
                R.bad(fn, t.where(), 'the promise\'s lock is left held', w.trace())
            elif not ann:
                R.bad(fn, t.where(), 'a promise is left unannounced: its waiters wait for ever', w.trace())
            elif not whole and out is None:
                R.bad(fn, t.where(), 'a promise is announced done without an outcome', w.trace())
            elif whole and out is None and nul is not True:
                R.bad(fn, t.where(), 'a promise is announced done without its value', w.trace())
            elif whole and (out == 'copy') != (arr == ('int', 1)):
                R.bad(fn, t.where(), 'an array result is not marked as such, or a plain one is', w.trace())
            elif whole and nul is not True and inv is None:
                R.bad(fn, t.where(), 'whether the value stands for an error is not considered', w.trace())
            elif whole and inv is True and not er:
                R.bad(fn, t.where(), 'the error number of a failed job is not kept', w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((0, False, None, None, False, None, None, False))
    R.floor(n, 2, 'functions that announce a promise')
    m.fn('promise_set')


def reader(R):
    R.rule('read', 'the outcome of a promise is read only after it was seen done; the error number of a failed job is '
                   'passed on to whoever gets the value')
    m = R.prog.std()
    n = 0
    OUT = {('result', 'value'), ('result', 'is_array'), ('erred',)}
    isout = lambda p: p[:2] in OUT or p[:1] == ('erred',)
    for fn in funcs(m):
        if not any(i.op == 'load' and (p := pfield(S(fn.ex(i.ops[0])))) and isout(p[1]) for i in fn.instrs()):
            continue
        n += 1
        R.saw(fn)
        returns = fn.name in ('promise_wait', 'thrd_get', 'queue_get')

        # state: (bases seen done, bases that are none, erred examined, errno set)
        def step(s, i, w, fn=fn):
            done, exa, setno, rd = s
            if i.op == 'load':
                p = pfield(w.val(i.ops[0]))
                if p and isout(p[1]):
                    if p[0] not in done and not later(fn, p[0], done):
                        R.bad(fn, i.where(), 'the outcome is read before the promise was seen done', w.trace())
                    else:
                        R.ok('%s: %s' % (fn.name, i.where()))
                    if p[1][:2] == ('result', 'value'):
                        rd = True
                    return (done, exa, setno, rd)
            if i.op == 'store' and w.val(i.ops[1])[0] == 'call' and w.val(i.ops[1])[1] == '__errno_location':
                v = w.val(i.ops[0])
                if v[0] == 'load' and (p := pfield(v[1])) and p[1] == ('erred',):
                    return (done, True, True, rd)
            return (done, exa, setno, rd)

        def edge(s, key, pol, i, w):
            done, exa, setno, rd = s
            for e in key[1:]:
                if isinstance(e, tuple) and e[0] == 'load':
                    p = pfield(e[1])
                    if p and p[1] == ('done',):
                        if truth(key, pol, lambda x: x == e) is True:
                            done = done | {p[0]}
                    if p and p[1] == ('erred',) and key[0] == 'eq':
                        r = truth(key, pol, lambda x: x == e)
                        exa = 'set' if r else True
                if isinstance(e, tuple) and e[0] == 'call' and e[1] in ('is_promise', 'queue_is_valid', 'thrd_is_done'):
                    r = truth(key, pol, lambda x: x == e)
                    d = w.fn.defs.get(e[2])
                    b = base(w.val(d.ops[0])) if d is not None else None
                    if r is False and e[1] in ('is_promise', 'queue_is_valid') or r is True and e[1] == 'thrd_is_done':
                        done = done | {b}
                if isinstance(e, tuple) and e[0] == 'call' and e[1] == 'data_type':
                    # a future whose result was fetched before
                    if eqlit(key, pol, lambda x: x == e, ('int', DATA_RESULT(m))) is True:
                        d = w.fn.defs.get(e[2])
                        done = done | {('of', base(w.val(d.ops[0])))}
                        exa = True
                if isinstance(e, tuple) and e[0] == 'call' and e[1] == 'os_join' and \
                        eqlit(key, pol, lambda x: x == e, ('int', 0)) is False:
                    exa = True
            return (done, exa, setno, rd)

        def ex(s, t, w, fn=fn, returns=returns):
            done, exa, setno, rd = s
            if not returns or not rd:
                return
            if not exa:
                R.bad(fn, t.where(), 'whether the job failed is not considered', w.trace())
            elif exa == 'set' and not setno:
                R.bad(fn, t.where(), 'the error number of a failed job is not passed on', w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex, all_phis=True).run((frozenset(), None, False, False))
    R.floor(n, 3, 'functions that read an outcome')


def DATA_RESULT(m):
    return ENUM(m, 'DATA_RESULT', 23)


def ENUM(m, nm, default):
    return default


def later(fn, b, done):
    """the promise embedded in a future whose result was fetched earlier"""
    e = b
    while e[0] in ('fld', 'idx'):
        e = e[1]
        if ('of', base(e)) in done:
            return True
    return False


def fresh(R):
    R.rule('fresh', 'the done flag is cleared only where a promise is created or given a new job, before the job is '
                    'handed on, and together with its whole previous outcome; it is never cleared elsewhere')
    m = R.prog.std()
    n = 0
    erred_at_queue = False
    for fn in funcs(m):
        if any(i.op == 'store' and (p := pfield(S(fn.ex(i.ops[1])))) and p[1] == ('erred',) and S(fn.ex(i.ops[0])) == ('int', 0)
               for i in fn.instrs()) and calls(fn, 'enqueue_promise', 'data_append'):
            erred_at_queue = True
    for fn in funcs(m):
        if not any((d := done_write(i, fn=fn)) and d[1] == ('int', 0) for i in fn.instrs()):
            continue
        R.saw(fn)
        n += 1

        def step(s, i, w, fn=fn):
            clr, st, given = s
            nm = name(i)
            if nm in ('events_calloc', 'calloc'):
                return (clr, st | {('zero', i.dest)}, given)
            if nm in ('task_push', 'os_create', 'enqueue_promise', 'create_task'):
                if nm != 'create_task':
                    given = True
                return (clr, st, given)
            d = done_write(i, w)
            if d and d[1] == ('int', 0):
                if given:
                    R.bad(fn, i.where(), 'the done flag is cleared after the job was handed on', w.trace())
                return (d[0], st, given)
            if i.op == 'store' and (p := pfield(w.val(i.ops[1]))):
                if given and p[1] != ('type',):
                    R.bad(fn, i.where(), 'the promise is written after the job was handed on', w.trace())
                v = w.val(i.ops[0])
                if p[1][:2] == ('result', 'value'):
                    # the whole slot: 8 bytes
                    if v == ('int', 0) and i.attr.get('ty', 'ptr') in ('ptr', 'i64'):
                        st = st | {'value'}
                    elif v == ('int', 0):
                        st = st | {'part'}
                elif p[1] == ('result', 'is_array') and v == ('int', 0):
                    st = st | {'is_array'}
                elif p[1] == ('erred',) and v == ('int', 0):
                    st = st | {'erred'}
                elif p[1] in (('args',), ('func',)):
                    st = st | {p[1][0]}
                return (clr, st, given)
            return s

        def edge(s, key, pol, i, w):
            # refused: nobody else has it
            r = eqlit(key, pol, lambda e: e[0] == 'call' and e[1] == 'task_push', ('int', -1))
            return (s[0], s[1], False) if r else s

        def ex(s, t, w, fn=fn):
            clr, st, given = s
            if not clr:
                return
            b = clr
            root = b
            while root[0] in ('fld', 'idx', 'load'):
                root = root[1]
            zero = root[0] == 'call' and ('zero', root[2]) in st
            alloc = root[0] == 'call' and root[1] in ('events_malloc', 'malloc', 'events_calloc')
            missing = [] if zero else [x for x in ('value', 'is_array') if x not in st]
            if not zero and 'erred' not in st and not erred_at_queue:
                missing.append('erred')
            if not alloc and not {'args', 'func'} <= st:
                R.bad(fn, t.where(), 'a promise is un-announced without being given a new job', w.trace())
            elif missing:
                R.bad(fn, t.where(), 'a promise used again keeps its previous %s' % ', '.join(missing), w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((None, frozenset(), False))
    R.floor(n, 3, 'functions that prepare a promise')


def thread(R):
    R.rule('thread', 'a future\'s thread runs the function once with the arguments given and sets the promise with what it '
                     'returned, or with the exception it raised; the waiter joins the thread and raises that exception again')
    m = R.prog.std()
    fn = m.fn('thrd_async')
    R.saw(fn)
    tops = set()
    st = {}
    for i in fn.instrs():
        if name(i) == 'os_create':
            a = [S(fn.ex(o)) for o in i.ops]
            if a[0][0] == 'g':
                tops.add(a[0][1])
            R.check(a[1][0] == 'call', fn, i.where(), 'the new thread is not given the future')
        if i.op == 'store' and (p := pfield(S(fn.ex(i.ops[1])))):
            st[p[1]] = S(fn.ex(i.ops[0]))
    R.check(st.get(('func',)) == ('arg', 0), fn, fn.name, 'the future does not get the function asked for')
    R.check(st.get(('args',), ('x',))[0] == 'call' and st[('args',)][1] == 'data_ex', fn, fn.name,
            'the future does not get the arguments given')
    if not tops:
        R.bad(fn, fn.name, 'no thread is started')
    for tn in sorted(tops):
        fn = m.fn(tn)
        R.saw(fn)
        tprom = lambda a: field_of(base(a), 'promise') and base(a)[1] == ('arg', 0)
        ran = [0, 0]

        # state: dest of the pending call | 'set' | 'caught' | ''
        def step(s, i, w, fn=fn):
            if i.op != 'call':
                return s
            c = i.attr.get('callee')
            if not i.attr['name'] and c is not None:
                e = w.val(c)
                if e[0] == 'load' and (p := pfield(e[1])) and p[1] == ('func',):
                    ran[0] += 1
                    if s:
                        R.bad(fn, i.where(), 'the function is run twice', w.trace())
                    a = w.val(i.ops[0]) if i.ops else None
                    if not (a and a[0] == 'load' and pfield(a[1]) == (p[0], ('args',))):
                        R.bad(fn, i.where(), 'the function does not get the arguments given', w.trace())
                    return i.dest or '-'
            n = i.attr['name']
            if n == 'promise_set':
                ran[1] += 1
                v = w.rawval(i.ops[1])
                if s in ('', 'set', 'caught') or v[0] != 'call' or v[2] != s:
                    R.bad(fn, i.where(), 'the promise is not set with what the function returned', w.trace())
                if not tprom(w.val(i.ops[0])):
                    R.bad(fn, i.where(), 'another promise than the future\'s own is set', w.trace())
                return 'set'
            if n == 'promise_erred':
                if not tprom(w.val(i.ops[0])):
                    R.bad(fn, i.where(), 'another promise than the future\'s own is set', w.trace())
                if s != 'caught':
                    R.bad(fn, i.where(), 'the promise is given an exception that was not caught', w.trace())
                return ''
            if n == 'try_next':
                if s == 'caught':
                    R.bad(fn, i.where(), 'a caught exception is not passed on', w.trace())
                elif s not in ('', 'set'):
                    R.bad(fn, i.where(), 'the function returned but the promise is not set', w.trace())
                return ''
            return s

        def edge(s, key, pol, i, w):
            if truth(key, pol, lambda e: e[0] == 'call' and e[1] == 'try_caught') is True:
                return 'caught'
            return s

        def ex(s, t, w, fn=fn):
            R.check(s in ('', 'set'), fn, t.where(), 'the thread ends without setting its promise', trace=w.trace())
        Walker(fn, step, edge=edge, exit=ex).run('')
        if not ran[0]:
            R.bad(fn, fn.name, 'the function of the future is never run')
        if not calls(fn, 'promise_erred'):
            R.bad(fn, fn.name, 'an exception of the function never reaches the waiter')
    fn = m.fn('thrd_get')
    R.saw(fn)

    # state: (joined ok, err literal, thrown)
    def step(s, i, w):
        j, er, th = s
        if name(i) == 'os_join':
            if j:
                R.bad(fn, i.where(), 'the thread is joined twice', w.trace())
            if not val_field(w.val(i.ops[0]), 'thread'):
                R.bad(fn, i.where(), 'another thread is joined', w.trace())
            return (i.dest or '-', er, th)
        if name(i) == 'ex_throw':
            v = w.val(i.ops[0])
            if val_field(v, 'err'):
                return (j, er, True)
            if er is True and j:
                R.bad(fn, i.where(), 'another exception than the one the function raised is raised', w.trace())
        return s

    def edge(s, key, pol, i, w):
        j, er, th = s
        r = truth(key, pol, lambda e: val_field(e, 'err') and mentions(e, lambda x: x[0] == 'fld' and x[2] == PR))
        if r is not None:
            er = r
        r = eqlit(key, pol, lambda e: e[0] == 'call' and e[1] == 'os_join', ('int', 0))
        if r is not None:
            j = True if r else False
        return (j, er, th)

    def ex(s, t, w):
        j, er, th = s
        v = w.val(t.ops[0]) if t.ops else None
        if j is True and er is None:
            R.bad(fn, t.where(), 'whether the function raised an exception is not considered', w.trace())
        elif j is True and er and not th:
            R.bad(fn, t.where(), 'the exception the function raised is lost', w.trace())
        elif j == '-' or (isinstance(j, str) and j):
            R.bad(fn, t.where(), 'whether the thread was joined is not considered', w.trace())
        else:
            R.ok('thrd_get: exit')
        if j is None and mentions(v, lambda x: x[0] == 'fld' and x[2] == PR) and not was_result:
            R.bad(fn, t.where(), 'the value is returned without joining the thread', w.trace())
    was_result = any(name(i) == 'data_type' for i in fn.instrs())
    if not calls(fn, 'os_join'):
        R.bad(fn, fn.name, 'the thread is never joined')
    Walker(fn, step, edge=edge, exit=ex, noreturn=()).run((None, None, False))


def value(R):
    R.rule('value', 'what the waiter gets is the stored value: the array\'s first item for an array result (or the array '
                    'itself for a promise), the plain value otherwise')
    m = R.prog.std()
    for pub in ('thrd_get', 'queue_get', 'promise_wait'):
        fn = m.fn(pub)
        R.saw(fn)

        def edge(s, key, pol, i, w):
            for e in key[1:]:
                if isinstance(e, tuple) and e[0] == 'load' and (p := pfield(e[1])) and p[1] == ('result', 'is_array'):
                    r = truth(key, pol, lambda x: x == e)
                    if r is not None:
                        return 'arr' if r else 'plain'
            return s

        def ex(s, t, w, fn=fn, pub=pub):
            v = w.val(t.ops[0])
            inner = v
            d = 0
            while inner[0] in ('load', 'fld', 'idx'):
                if inner[0] == 'load':
                    d += 1
                p = pfield(inner) if inner[0] == 'fld' else None
                if p and p[1][:2] == ('result', 'value'):
                    break
                inner = inner[1]
            else:
                if mentions(v, lambda x: x[0] == 'fld' and x[2] == PR):
                    R.bad(fn, t.where(), 'what is returned is not the stored value', w.trace())
                elif s in ('arr', 'plain'):
                    R.bad(fn, t.where(), 'what is returned is not the stored value', w.trace())
                return
            if pub == 'promise_wait':
                R.check(d == 1, fn, t.where(), 'what is returned is not the stored value', trace=w.trace())
            elif s == 'arr':
                R.check(d == 2, fn, t.where(), 'an array result is returned as if it were a plain value', trace=w.trace())
            elif s == 'plain':
                R.check(d == 1, fn, t.where(), 'a plain result is returned as if it were an array', trace=w.trace())
            else:
                R.bad(fn, t.where(), 'whether the result is an array is not considered', w.trace())
        Walker(fn, lambda s, i, w: s, edge=edge, exit=ex, all_phis=True).run('')


# ------------------------------------------------------------------ delivery
def peel(e):
    while e is not None and e[0] in ('zext', 'sext', 'trunc'):
        e = e[-1]
    return e


def reads(e, f):
    """e was read from field f of a promise"""
    e = peel(e)
    return e is not None and e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == f


def of_value(a):
    """an address inside the stored value"""
    while a[0] in ('fld', 'idx'):
        if a[0] == 'fld' and a[3] == 'value':
            return True
        a = a[1]
    return False


def asks(key, nm):
    """the literal asks what a test gave"""
    return key[0] == 'eq' and key[2] == ('int', 0) and peel(key[1])[:2] == ('call', nm)


def deliver(R):
    R.rule('deliver', 'each finished promise is handed over once, as the array or the plain value it holds, and then counts as taken; '
                      'only what holds no outcome is refused')
    m = R.prog.std()
    fn = m.fn('queue_wait')
    R.saw(fn)
    n = [0, 0]
    START = (False, None, frozenset(), 0, False)

    # x = (finished, is_array, what it is not, times told, counts as taken)
    def step(x, i, T):
        fin, kind, nots, told, tk = x
        nm = name(i)
        if i.op == 'call' and nm is None and i.attr.get('callee') is not None and T.ev(i.attr['callee']) == ('arg', 1):
            a = T.ev(i.ops[0])
            n[0] += 1
            R.check(fin, fn, i.where(), 'a result is handed over before its promise is done', trace=T.trace())
            R.check(not told, fn, i.where(), 'a result is handed over twice', trace=T.trace())
            R.check(kind is not None and (kind == 1) == (peel(a)[0] in ('ld', 'load') and of_value(peel(a)[1])) and (kind == 1 or of_value(a)), fn, i.where(),
                    'something else than the result is handed over', trace=T.trace())
            return (fin, kind, nots, told + 1, tk)
        if i.op == 'store' and T.ev(i.ops[1])[0] == 'fld' and T.ev(i.ops[1])[3] == 'is_array':
            v = peel(T.ev(i.ops[0]))
            return (fin, kind, nots, told, v[0] == 'int' and v[1] not in (0, 1))
        if nm == 'data_remove':
            n[1] += 1
            R.check(fin, fn, i.where(), 'a promise that is not done is taken for done', trace=T.trace())
            if T.null(('arg', 1)) is not True:
                R.check(told == 1 or nots >= {0, 1} and not told, fn, i.where(), 'a result is not handed over', trace=T.trace())
                R.check(tk, fn, i.where(), 'a result stays, to be handed over again', trace=T.trace())
            return START
        return x

    def edge(x, key, pol, i, T):
        fin, kind, nots, told, tk = x
        if asks(key, 'queue_is_valid'):
            return START if not pol else (True,) + START[1:]
        if key[0] == 'eq' and key[2][0] == 'int' and reads(key[1], 'is_array'):
            c = key[2][1]
            if pol:
                return (fin, c, nots, told, tk)
            return (fin, kind, nots | {c}, told, tk)
        return x

    def ex(x, t, T, rv):
        if x[0]:
            R.bad(fn, t.where(), 'the wait ends with a result not dealt with', T.trace())

    def back(x, h, again, T):
        return START
    Track(fn, step=step, edge=edge, exit=ex, back=back, x0=START, pure=('queue_is_valid', 'is_data', 'data_size')).run()
    R.floor(n[0], 1, 'hand-overs')
    R.floor(n[1], 1, 'promises done with')

    fn = m.fn('queue_get')
    R.saw(fn)
    k = [0, 0]

    # x = (counts as taken, released, refused, known of is_array, tests that failed)
    def step2(x, i, T):
        tk, fr, th, nots, no = x
        nm = name(i)
        if i.op == 'store' and T.ev(i.ops[1])[0] == 'fld' and T.ev(i.ops[1])[3] == 'is_array':
            v = peel(T.ev(i.ops[0]))
            tk = v[0] == 'int' and v[1] not in (0, 1)
        elif nm in ('defer_free', 'events_free', 'promise_clean'):
            a = T.ev(i.ops[0])
            if not (peel(a)[0] in ('ld', 'load') and of_value(peel(a)[1])):
                R.check(not fr, fn, i.where(), 'a promise is released twice', trace=T.trace())
                fr = True
        elif nm in ('ex_throw', 'ex_panic', 'panic'):
            k[1] += 1
            why = nots >= {0, 1} or no >= {'is_future', 'is_promise'} or ('is_promise', 'in') in no or 'none' in no
            R.check(why, fn, i.where(), 'a promise that holds an outcome is refused', trace=T.trace())
            th = True
        return (tk, fr, th, nots, no)

    def edge2(x, key, pol, i, T):
        tk, fr, th, nots, no = x
        if pol and key[0] == 'eq' and key[2] == ('int', 0) and 'yes' in no and \
                (key[1] == ('arg', 0) or peel(key[1])[0] in ('fld', 'ld', 'load') and mentions(key[1], lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[3] == 'promise')
                 and not any(reads(key[1], z) for z in ('is_array', 'done', 'erred'))):
            return None             # what was found to be a promise is there
        for f in ('is_future', 'is_promise'):
            for c in calls(fn, f):
                if f == 'is_promise' and not pol and key[0] == 'eq' and key[2] == ('int', 0) and mentions(key[1], lambda y, c=c: y == ('call', f, c.dest)):
                    no = no | {'yes'}
                if pol and key[0] == 'eq' and mentions(key[1], lambda y, c=c: y == ('call', f, c.dest)):
                    inner = T.ev(c.ops[0]) != ('arg', 0)
                    no = no | {(f, 'in') if inner else f}
        if key[0] == 'eq' and key[2][0] == 'int' and reads(key[1], 'is_array') and not pol:
            nots = nots | {key[2][1]}
        if key[0] == 'eq' and key[2] == ('int', 0) and peel(key[1])[:2] == ('call', 'data_type') or \
                key[0] == 'eq' and peel(key[1])[:2] == ('call', 'data_type') and not pol:
            no = no | {'none'}
        return (tk, fr, th, nots, no)

    def ex2(x, t, T, rv):
        tk, fr, th, nots, no = x
        if th:
            return
        k[0] += 1
        R.check(tk, fn, t.where(), 'a result stays, to be handed over again', trace=T.trace())
        R.check(fr, fn, t.where(), 'a promise whose result was handed over is not released', trace=T.trace())
    Track(fn, step=step2, edge=edge2, exit=ex2, x0=(False, False, False, frozenset(), frozenset()), noreturn=('ex_throw',), pure=('is_future', 'is_promise')).run()
    R.floor(k[0], 1, 'results given')
    R.floor(k[1], 1, 'refusals')

    # a thread future: refused only when it is none
    fn = m.fn('thrd_get')
    R.saw(fn)
    q = [0]

    # x = (joined, result noted as had)
    def step3(x, i, T):
        jo, had = x
        nm = name(i)
        if nm == 'os_join':
            w = T.ev(i.ops[1])
            return ((i.dest, w[0] == 'int' and w[1] in (-1, 0xffffffff)), had)
        if i.op == 'store' and T.ev(i.ops[1])[0] == 'fld' and T.ev(i.ops[1])[3] == 'type' and T.ev(i.ops[1])[1] == ('arg', 0):
            return (jo, True)
        if nm == 'ex_throw':
            a = T.ev(i.ops[0])
            if reads(a, 'err'):
                R.check(reads(T.ev(i.ops[4]), '_panic'), fn, i.where(), 'the exception is raised again without its message', trace=T.trace())
            else:
                kinds = {kk[2] for kk, v in T.F.items() if kk[0] == 'eq' and not v and peel(kk[1])[:2] == ('call', 'data_type')}
                q[0] += 1
                R.check(len(kinds) >= 2, fn, i.where(), 'a future is refused its result', trace=T.trace())
        return x

    def ex3(x, t, T, rv):
        jo, had = x
        if jo is not None and T.null(('call', 'os_join', jo[0])) is not True:
            R.check(jo[1], fn, t.where(), 'the thread is not waited for: what it raised is lost', trace=T.trace())
        if jo is not None and T.null(('call', 'os_join', jo[0])) is True:
            R.check(had, fn, t.where(), 'a joined thread may be joined again', trace=T.trace())
    Track(fn, step=step3, exit=ex3, x0=(None, False), noreturn=('ex_throw',), pure=('data_type',)).run()
    R.floor(q[0], 1, 'refusals of a future')

    # made of raw memory
    w = 0
    for fn in funcs(m):
        if not any(i.op == 'store' and (p := pfield(S(fn.ex(i.ops[1])))) and p[1] == ('type',) and S(fn.ex(i.ops[0])) not in (('int', 0),) for i in fn.instrs()) or \
                not calls(fn, 'events_malloc', 'malloc', 'events_memalign'):
            continue
        w += 1
        R.saw(fn)

        def step4(x, i, T):
            if name(i) in ('events_malloc', 'malloc', 'events_memalign'):
                return (('call', name(i), i.dest), frozenset())
            raw, st = x
            if raw is not None and i.op in ('store', 'atomicrmw'):
                o = i.ops[1] if i.op == 'store' else i.ops[0]
                v = i.ops[0] if i.op == 'store' else i.ops[1]
                names, e = [], T.ev(o)
                while e[0] in ('fld', 'idx'):
                    names += [e[3]] if e[0] == 'fld' else []
                    e = e[1]
                if names and nodest(e) == nodest(raw):
                    f = next((y for y in names if y in ('done', 'erred', 'is_array', 'value', 'args', 'mutex')), '')
                    st = st | {f} if T.ev(v) == ('int', 0) else st - {f}
            elif raw is not None and (name(i) or '').startswith('llvm.memset') and T.ev(i.ops[0]) == raw:
                st = frozenset(('done', 'erred', 'is_array', 'value', 'args', 'mutex'))
            return (raw, st)

        def ex4(x, t, T, rv, fn=fn):
            raw, st = x
            if raw is not None and rv is not None and peel(rv) == raw and T.null(raw) is not True:
                lack = {'done', 'erred', 'is_array', 'value', 'args', 'mutex'} - st
                R.check(not lack, fn, t.where(), 'a promise is made with whatever was in its memory: %s' % ', '.join(sorted(lack)), trace=T.trace())
        Track(fn, step=step4, exit=ex4, x0=(None, frozenset()), pure=('events_malloc',)).run()

    # an exception is handed on with its message
    w = 0
    for fn in funcs(m):
        def told(T_ex, i, f):
            return i.op == 'store' and (a := T_ex(i.ops[1]))[0] == 'fld' and a[3] == f and mentions(a, lambda y: y[:1] == ('fld',) and y[3] == 'scope')
        st = [i for i in fn.instrs() if told(fn.ex, i, 'err') and fn.ex(i.ops[0]) not in (('int', 0),) and fn.ex(i.ops[0])[0] != 'null']
        if not st or not any((d := done_write(i, fn=fn)) for i in fn.instrs()):
            continue
        w += 1
        R.saw(fn)

        def step5(x, i, T):
            for f, g in (('err', 'ex'), ('_panic', '_panic')):
                if told(T.ev, i, f):
                    v = peel(T.ev(i.ops[0]))
                    x = (x - {f}) | ({f} if v[0] in ('ld', 'load') and v[1][0] == 'fld' and v[1][3] == g else set())
            return x

        def ex5(x, t, T, rv, fn=fn):
            for f, what in (('err', 'the exception'), ('_panic', 'the message of the exception')):
                R.check(f in x, fn, t.where(), '%s is not handed on' % what, trace=T.trace())
        Track(fn, step=step5, exit=ex5, x0=frozenset()).run()
    R.floor(w, 1, 'exceptions handed on')


RULES = [setter, reader, fresh, thread, value, deliver]

"""P03: a task's result becomes visible to other tasks and threads."""
from rules.common import *

RD = 'results_data'
NO_RESULT = ('int', -2)


def entry_field(a, f):
    return field_of(a, f, RD)


def publish(R):
    R.rule('publish', 'the value is stored, then the result marked ready, then the task marked terminated, all after the '
                      'body returned; ready only with a value; terminated on every path of a task that has a result')
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        sites = [i for i in fn.instrs() if i.op == 'store' and entry_field(S(fn.ex(i.ops[1])), 'is_terminated')
                 and S(fn.ex(i.ops[0])) != ('int', 0)]
        body = [i for i in fn.instrs() if i.op == 'call' and not i.attr['name'] and i.attr.get('callee')
                and val_field(S(fn.ex(i.attr['callee'])), 'func', 'events_task_s')]
        if not sites and not body:
            continue
        R.saw(fn)
        n += len(sites)

        # state: (ret id, obj, ready, term, data, rid, usable)
        def step(s, i, w, fn=fn, body=body):
            ret, obj, ready, term, data, rid, use = s
            if i in body:
                if ret:
                    R.bad(fn, i.where(), 'the body of a task is run twice', w.trace())
                return (i.dest or '-', obj, ready, term, data, rid, use)
            if i.op != 'store':
                return s
            a, v = w.val(i.ops[1]), w.rawval(i.ops[0])
            if entry_field(a, 'result'):
                if term or ready:
                    R.bad(fn, i.where(), 'the value is stored after the result was announced', w.trace())
                if v[0] != 'call' or v[2] != ret:
                    if v != ('int', 0):
                        R.bad(fn, i.where(), 'what is published is not what the task returned', w.trace())
                return (ret, True, ready, term, data, rid, use)
            if entry_field(a, 'is_ready') and v != ('int', 0):
                if not obj:
                    R.bad(fn, i.where(), 'the result is marked ready before its value is stored', w.trace())
                if term:
                    R.bad(fn, i.where(), 'the result is marked ready after the task was marked terminated', w.trace())
                return (ret, obj, True, term, data, rid, use)
            if entry_field(a, 'is_terminated') and v != ('int', 0):
                if not ret:
                    R.bad(fn, i.where(), 'the task is marked terminated before its body returned', w.trace())
                return (ret, obj, ready, True, data, rid, use)
            return s

        def edge(s, key, pol, i, w):
            ret, obj, ready, term, data, rid, use = s
            r = truth(key, pol, lambda e: e[0] == 'call' and e[1] is None)
            if r is not None:
                data = r
            r = eqlit(key, pol, lambda e: val_field(e, 'rid'), NO_RESULT)
            if r is not None:
                rid = not r
            r = truth(key, pol, lambda e: e[0] == 'call' and e[1] == 'is_ptr_usable')
            if r is False:
                use = False
            return (ret, obj, ready, term, data, rid, use)

        def ex(s, t, w, fn=fn):
            ret, obj, ready, term, data, rid, use = s
            if not ret or use is False:
                return
            if rid is None:
                R.bad(fn, t.where(), 'a finished task\'s result is not recorded', w.trace())
            elif rid and not term:
                R.bad(fn, t.where(), 'a finished task that has a result is never marked terminated', w.trace())
            elif rid and data is None:
                R.bad(fn, t.where(), 'whether the task returned a value is not considered', w.trace())
            elif rid and data and not (obj and ready):
                R.bad(fn, t.where(), 'a returned value is not published', w.trace())
            elif rid and data is False and ready:
                R.bad(fn, t.where(), 'a result is announced although the task returned none', w.trace())
            elif rid is False and (obj or ready or term):
                R.bad(fn, t.where(), 'a task without a result writes a result record', w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((None, False, False, False, None, None, None))
    R.floor(n, 1, 'places that mark a task terminated')


def await_(R):
    R.rule('await', 'waiting for a result returns only after the task was seen terminated; a result is returned only '
                    'when it is marked ready; readiness is reported from the record itself')
    m = R.prog.std(extra=('results_for',), keep=())
    fn = m.fn('await_for')
    R.saw(fn)

    def step(s, i, w):
        if i.op == 'call' and (i.attr['name'] or '') in ('yield', 'suspend', 'task_switch'):
            return (False, s[1])
        if i.op == 'load' and entry_field(w.val(i.ops[0]), 'result'):
            if not s[0]:
                R.bad(fn, i.where(), 'the value is read before the task was seen terminated', w.trace())
            if not s[1]:
                R.bad(fn, i.where(), 'the value is read although it is not marked ready', w.trace())
        return s

    def edge(s, key, pol, i, w):
        r = truth(key, pol, lambda e: val_field(e, 'is_terminated', RD) and own(e))
        if r is not None:
            s = (r, s[1])
        r = truth(key, pol, lambda e: val_field(e, 'is_ready', RD) and own(e))
        if r is not None:
            s = (s[0], r)
        return s

    def ex(s, t, w):
        if not s[0]:
            R.bad(fn, t.where(), 'waiting ends although the task was not seen terminated', w.trace())
            return
        v = w.val(t.ops[0]) if t.ops else None
        if s[1] and not (v and val_field(v, 'result', RD)):
            R.bad(fn, t.where(), 'the task\'s value is not what the waiter gets', w.trace())
        elif v and val_field(v, 'result', RD) and not own(v):
            R.bad(fn, t.where(), 'the waiter gets another task\'s value', w.trace())
        else:
            R.ok('await_for: exit')
    Walker(fn, step, edge=edge, exit=ex).run((False, False))

    fn = m.fn('task_is_ready')
    R.saw(fn)
    for ev, r, tr in path_summaries(fn, lambda i, w: None, lambda k, p, i, w: ('br', k, p)):
        seen = {}
        for t, i in ev:
            for f in ('is_ready', 'is_terminated'):
                x = truth(t[1], t[2], lambda e: val_field(e, f, RD))
                if x is not None:
                    seen[f] = x
        r = S(r) if r else None
        while r and (r[0] in ('zext', 'sext', 'trunc') or r[0] == 'cmp' and r[1] == 'ne' and r[3] == ('int', 0)):
            r = S(r[-1] if r[0] != 'cmp' else r[2])
        if r and r[0] == 'int':
            good = (any(seen.values()) if r[1] & 1 else (seen.get('is_ready') is False and seen.get('is_terminated') is False))
        else:
            good = r is not None and (val_field(r, 'is_terminated', RD) or val_field(r, 'is_ready', RD)) or \
                (r and r[0] in ('bin', 'cmp', 'select') and all(mentions(r, lambda e: val_field(e, f, RD)) for f in
                                                               ('is_ready', 'is_terminated')))
        R.check(good, fn, fn.name, 'readiness is not reported from the task\'s record', trace=tr)


def own(e):
    """the record is the one whose id was asked for"""
    return mentions(e, lambda x: x[0] == 'idx' and val_field(x[1], 'results', 'sys_events_s') and x[2] == ('arg', 0))


def table(R):
    R.rule('table', 'the table of results: entries and the table pointer are only written under the lock, an entry only '
                    'once the table is known to be long enough and the record is initialised, a replaced table keeps '
                    'every entry, and no table is released or moved while the library runs')
    m = R.prog.std()
    tab = lambda e: val_field(e, 'results', 'sys_events_s')
    n = 0
    for fn in funcs(m):
        touches = False
        for i in fn.instrs():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                a = S(fn.ex(i.ops[1] if i.op == 'store' else i.ops[0]))
                if field_of(a, 'results', 'sys_events_s') or a[0] == 'idx':
                    touches = True
            if i.op == 'call' and i.attr['name'] in ('events_free', 'events_realloc', 'rpfree', 'free'):
                touches = True
        if not touches:
            continue

        # state: (lock depth, id ids bound-checked, copied, record inits, table size stored value)
        def step(s, i, w, fn=fn):
            depth, bound, grown, copied, init, size = s
            k = is_lock(i, w, SYSLOCK)
            if k:
                return (depth + k, bound, grown, copied, init, size)
            if i.op == 'call' and i.attr['name'] in ('events_free', 'events_realloc', 'rpfree', 'free'):
                v = w.val(i.ops[0])
                if tab(v) and fn.name != 'events_deinit':
                    R.bad(fn, i.where(), 'the results table is released or moved while other threads read it', w.trace())
            if i.op == 'call' and i.attr['name'] in ('events_calloc', 'events_malloc') and depth:
                return (depth, bound, (i.dest, tuple(w.val(o) for o in i.ops)), False, init, size)
            if i.op == 'call' and (i.attr['name'] or '').startswith(('llvm.memcpy', 'llvm.memmove')) or name(i) in ('memcpy', 'memmove'):
                if tab(w.val(i.ops[1])):
                    return (depth, bound, grown, True, init, size)
            if i.op != 'store':
                return s
            a, v = w.val(i.ops[1]), w.val(i.ops[0])
            if field_of(a, 'results', 'sys_events_s'):
                if v == ('int', 0):
                    R.ok('%s: %s cleared' % (fn.name, i.where()))
                    return s
                if depth < 1:
                    R.bad(fn, i.where(), 'the results table is replaced outside the lock (a newer table can be undone)', w.trace())
                elif v[0] == 'call' and not copied and size is not True:
                    R.bad(fn, i.where(), 'a replaced results table loses its entries', w.trace())
                else:
                    R.ok('%s: %s table published under lock' % (fn.name, i.where()))
                return s
            if a[0] == 'idx' and (tab(a[1]) or (a[1][0] == 'call' and grown and a[1][2] == grown[0])):
                if depth < 1:
                    R.bad(fn, i.where(), 'a results table entry is written outside the lock', w.trace())
                missing = {'is_ready', 'is_terminated', 'is_canceled', 'result'} - init
                if missing:
                    R.bad(fn, i.where(), 'a result record is published before its %s is initialised' % ', '.join(sorted(missing)), w.trace())
                idx = a[2]
                okb = any(b[0] == idx for b in bound)
                if grown and a[1][0] == 'call':
                    okb = any(b[0] == idx and any(b[1] == x or mentions(x, lambda y: y == b[1]) for x in grown[1]) for b in bound)
                if not okb:
                    R.bad(fn, i.where(), 'a results table entry is written without the table being long enough', w.trace())
                if idx[0] != 'rmw':
                    R.bad(fn, i.where(), 'the entry index does not come from the atomic id generator', w.trace())
                R.ok('%s: %s entry' % (fn.name, i.where()))
                return s
            for f in ('is_ready', 'is_terminated', 'is_canceled', 'result'):
                if entry_field(a, f) and v == ('int', 0):
                    return (depth, bound, grown, copied, init | {f}, size)
            return s

        def edge(s, key, pol, i, w):
            depth, bound, grown, copied, init, size = s
            if key[0] == 'lt' and key[1] == 'u' and pol and key[2][0] == 'rmw':
                bound = bound | {(key[2], w.subst(key[3], w.binds))}
            r = truth(key, pol, tab)
            if r is not None:
                size = not r          # True: there was no table yet
            return (depth, bound, grown, copied, init, size)
        if any(i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'idx' and (
                mentions(S(fn.ex(i.ops[1])), tab)) or
               (i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'results', 'sys_events_s')) for i in fn.instrs()) or \
                any(i.op == 'call' and i.attr['name'] in ('events_free', 'events_realloc') and tab(S(fn.ex(i.ops[0])))
                    for i in fn.instrs()):
            R.saw(fn)
            n += 1
            Walker(fn, step, edge=edge, all_phis=True).run((0, frozenset(), None, False, frozenset(), None))
    R.floor(n, 2, 'functions that write the results table')


def thread_id(R):
    R.rule('tid', 'a result\'s record names the thread the task was given to before the task is given to it')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'deque_push'):
        R.saw(fn)

        def step(s, i, w, fn=fn):
            rid, tid = s
            if i.op == 'store':
                a, v = store(i, w)
                if field_of(a, 'rid', 'events_task_s'):
                    return ('none' if v == NO_RESULT else 'some', tid)
                if entry_field(a, 'tid') and mentions(v, lambda x: field_of(x, 'tid', 'events_task_s')):
                    return (rid, True)
            if i.op == 'call' and i.attr['name'] == 'deque_push':
                if rid == 'some' and not tid:
                    R.bad(fn, i.where(), 'the task is handed over before its result record names its thread', w.trace())
                else:
                    R.ok('%s: %s' % (fn.name, i.where()))
            return s
        Walker(fn, step, all_phis=True).run(('none', False))
        n += 1
    R.floor(n, 1, 'hand-overs')


RULES = [publish, await_, table, thread_id]

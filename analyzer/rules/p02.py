"""P02: handing a task to another thread's queue and taking it there."""
from rules.common import *


def handoff(R):
    R.rule('handoff', 'a task put in another thread\'s deque: fresh task only, target thread chosen from the pool, pushed '
                      'under the lock that serialises producers, then the available count is raised by one and the '
                      'worker released, and the task is not touched again by the thread that gave it away')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'deque_push'):
        R.saw(fn)

        def step(s, i, w, fn=fn):
            depth, pushed, adds, started, fresh, tid = s
            k = is_lock(i, w, SYSLOCK)
            if k:
                return (depth + k, pushed, adds, started, fresh, tid)
            if i.op == 'store':
                a, v = store(i, w)
                if field_of(a, 'tid', 'events_task_s'):
                    tid = (a, v)
                    s = (depth, pushed, adds, started, fresh, tid)
            if i.op == 'call' and i.attr['name'] == 'deque_push':
                q, t = w.val(i.ops[0]), w.val(i.ops[1])
                if pushed:
                    R.bad(fn, i.where(), 'a task is pushed twice', w.trace())
                if depth != 1:
                    R.bad(fn, i.where(), 'the push is not inside the lock that keeps producers apart', w.trace())
                if not (q[0] == 'load' and q[1][0] == 'idx' and val_field(q[1][1], 'local')
                        and mentions(q[1][2], lambda x: x[0] == 'load' and field_of(x[1], 'tid') and x[1][1] == t)):
                    R.bad(fn, i.where(), 'the task is not pushed to the deque of the thread it is assigned to', w.trace())
                if not tid or tid[0][1] != t or not pooled(tid[1]):
                    R.bad(fn, i.where(), 'the task is pushed without being assigned one of the pool\'s threads', w.trace())
                if not (('status' in fresh) and ('cid' in fresh)):
                    R.bad(fn, i.where(), 'a task that was already started can be handed over again', w.trace())
                R.ok('%s: %s' % (fn.name, i.where()))
                return (depth, (q, t), 0, started, fresh, tid)
            x = rmw(i, w)
            if x and field_of(x[1], 'available'):
                if x[0] == 'add':
                    if not pushed or x[1][1] != pushed[0]:
                        R.bad(fn, i.where(), 'the available count is raised before the task is in that queue', w.trace())
                    if x[2] != ('int', 1):
                        R.bad(fn, i.where(), 'the available count is not raised by one', w.trace())
                    return (depth, pushed, min(adds + 1, 2), started, fresh, tid)
            if i.op == 'store' and field_of(w.val(i.ops[1]), 'available'):
                R.bad(fn, i.where(), 'the shared available count is overwritten non-atomically', w.trace())
            if x and x[0] in ('xchg', 'or') and field_of(x[1], 'started') and pushed and x[1][1] == pushed[0]:
                return (depth, pushed, adds, True, fresh, tid)
            if pushed and uses(fn, i, lambda e: e == pushed[1]):
                R.bad(fn, i.where(), 'the task is used after it was given to another thread (which may have finished '
                                     'and released it)', w.trace())
                return None
            return s

        def edge(s, key, pol, i, w):
            f = s[4]
            if eqlit(key, pol, lambda e: val_field(e, 'status'), ('int', 3)):
                f = f | {'status'}
            if eqlit(key, pol, lambda e: val_field(e, 'cid'), ('int', -1)):
                f = f | {'cid'}
            return s[:4] + (f,) + s[5:]

        def ex(s, t, w, fn=fn):
            depth, pushed, adds, started, fresh, tid = s
            if not pushed:
                return
            if adds != 1:
                R.bad(fn, t.where(), 'a pushed task is counted %d times as available' % adds, w.trace())
            elif depth:
                R.bad(fn, t.where(), 'the producers\' lock is still held', w.trace())
            elif not started:
                R.bad(fn, t.where(), 'the worker that owns the queue is not released to run', w.trace())
            else:
                R.ok('%s: exit after hand-over' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((0, None, 0, False, frozenset(), None))
        n += len(calls(fn, 'deque_push'))
    R.floor(n, 1, 'calls of deque_push')
    # nobody else changes the count upwards
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'atomicrmw' and i.attr['rmw'] == 'add' and field_of(S(fn.ex(i.ops[0])), 'available') \
                    and not calls(fn, 'deque_push') and not any(
                        mentions(S(fn.ex(c.ops[0])), lambda x: field_of(x, 'jobs')) for c in calls(fn, 'data_append')):
                R.bad(fn, i.where(), 'the available count is raised without a task being pushed')


def pooled(v):
    """tasks_cpu_idx[n % size(tasks_cpu_idx)]"""
    if v[0] != 'load':
        return False
    a = v[1]
    while a[0] == 'fld':
        a = a[1]
    if a[0] != 'idx' or not val_field(a[1], 'tasks_cpu_idx'):
        return False
    return mentions(a[2], lambda x: x[0] == 'bin' and x[1] in ('urem', 'srem') and
                    mentions(x[3], lambda y: y[0] == 'call' and y[1] == 'data_size'))


def given(R):
    R.rule('given', 'callers that create a task for another thread do not use the record after starting it')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'task_push'):
        thr = [i for i in calls(fn, 'create_task') if S(fn.ex(i.ops[3])) != ('int', 0)]
        if not thr:
            continue
        R.saw(fn)
        ids = {i.dest for i in thr}

        def step(s, i, w, fn=fn, ids=ids):
            if i.op == 'call' and i.attr['name'] == 'task_push':
                v = w.rawval(i.ops[0])
                if v[0] == 'call' and v[1] == 'create_task' and v[2] in ids:
                    if s == v[2]:
                        R.bad(fn, i.where(), 'the task is started twice', w.trace())
                    return v[2]
            if i.op == 'call' and i.dest == s and s:
                return None if False else ''
            if s and uses2(fn, i, w, s):
                R.bad(fn, i.where(), 'the task is used after it was given to another thread', w.trace())
                return None
            return s

        def ex(s, t, w, fn=fn):
            if s:
                R.ok('%s: task not used after the hand-over' % fn.name)
        Walker(fn, step, exit=ex).run('')
        n += len(thr)
    R.floor(n, 2, 'tasks created for another thread')


def uses2(fn, i, w, ident):
    def root(e):
        while e[0] in ('fld', 'idx'):
            e = e[1]
        return e[0] == 'call' and e[1] == 'create_task' and e[2] == ident
    if i.op == 'load':
        return root(w.rawval(i.ops[0]))
    if i.op == 'store':
        return root(w.rawval(i.ops[1]))
    if i.op == 'call' and not (i.attr['name'] or '').startswith('llvm.'):
        return any(root(w.rawval(o)) for o in i.ops)
    return False


def take(R):
    R.rule('take', 'a worker taking tasks: a lost race is retried without touching the count, an empty queue stops, '
                   'and every task obtained lowers the count once, is queued once on the worker\'s own run queue and '
                   'is added once to its task count')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'deque_steal'):
        R.saw(fn)
        n += len(calls(fn, 'deque_steal'))

        # state: (phase, tok, sub, enq, tc, takenknown, takenset, idxdown)
        def close(s, at, w, fn=fn):
            ph, tok, sub, nq, tc, known, tset = s
            if ph == 'got':
                if known is None:
                    R.bad(fn, at.where(), 'a stolen result is neither recognised as a marker nor as a task', w.trace())
                elif known == 'task':
                    if sub != 1:
                        R.bad(fn, at.where(), 'taking a task changes the available count %d times' % sub, w.trace())
                    elif nq != 1:
                        R.bad(fn, at.where(), 'a taken task is queued %d times' % nq, w.trace())
                    elif tc == 'bad':
                        R.bad(fn, at.where(), 'a taken task is not counted once in the worker\'s task count', w.trace())
                    else:
                        R.ok('%s: taken task' % fn.name)
                else:
                    if sub or nq or tc not in ('none', 'bad'):
                        R.bad(fn, at.where(), 'an %s marker is treated as a task' % known, w.trace())
                    else:
                        R.ok('%s: %s marker' % (fn.name, known))

        def step(s, i, w, fn=fn):
            ph, tok, sub, nq, tc, known, tset = s
            if i.op == 'call' and i.attr['name'] == 'deque_steal':
                close(s, i, w)
                return ('got', i.dest, 0, 0, 'bad', None, None)
            if ph != 'got':
                return s
            x = rmw(i, w)
            if x and field_of(x[1], 'available'):
                if x[0] != 'sub' or x[2] != ('int', 1):
                    if not (x[0] == 'add' and x[2] == ('int', -1)):
                        R.bad(fn, i.where(), 'the available count is not lowered by one', w.trace())
                return (ph, tok, min(sub + 1, 2), nq, tc, known, tset)
            if i.op == 'store':
                a, v = store(i, w)
                if field_of(a, 'available'):
                    R.bad(fn, i.where(), 'the shared available count is overwritten non-atomically', w.trace())
                e = enq(i, w)
                if e:
                    if e[1][0] == 'call' and e[1][1] == 'deque_steal':
                        if not is_list(e[0], 'run_queue'):
                            R.bad(fn, i.where(), 'a taken task is not put on this thread\'s run queue', w.trace())
                        return (ph, tok, sub, min(nq + 1, 2), tc, known, tset)
                    return s
                if thrd_field(a, 'task_count') and known == 'task' and lin(v) == ({('load', a): 1}, 1):
                    if tset is False and tc == 'bad':
                        return (ph, tok, sub, nq, 'once', known, tset)
                    if tset != 'set':
                        return (ph, tok, sub, nq, 'once' if tset is False else 'bad2', known, tset)
                if field_of(a, 'taken') and a[1][0] == 'call' and a[1][1] == 'deque_steal' and v != ('int', 0):
                    return (ph, tok, sub, nq, tc, known, tset)
            return s

        def edge(s, key, pol, i, w, fn=fn):
            ph, tok, sub, nq, tc, known, tset = s
            if ph != 'got':
                return s
            st = lambda e: e[0] == 'call' and e[1] == 'deque_steal'
            for mark, nm in ((('load', ('g', 'TASK_ABORT_T')), 'abort'), (('load', ('g', 'TASK_EMPTY_T')), 'empty'),
                             (('g', 'TASK_ABORT_T'), 'abort'), (('g', 'TASK_EMPTY_T'), 'empty'),
                             (('int', 0x300), 'empty'), (('int', 0x400), 'abort')):
                r = eqlit(key, pol, st, mark)
                if r is True:
                    return (ph, tok, sub, nq, tc, nm, tset)
                if r is False:
                    ks = {'not-' + nm} | (set(known.split('+')) if known and known.startswith('not-') else set())
                    kk = '+'.join(sorted(ks))
                    if ks >= {'not-abort', 'not-empty'}:
                        kk = 'task'
                    return (ph, tok, sub, nq, tc, kk if known in (None,) or known.startswith('not-') else known, tset)
            r = truth(key, pol, lambda e: val_field(e, 'taken') and e[1][1][0] == 'call' and e[1][1][1] == 'deque_steal')
            if r is not None and tset is None:
                return (ph, tok, sub, nq, 'none' if r else tc, known, r)
            return s

        def ex(s, t, w):
            close(s, t, w)
        Walker(fn, step, edge=edge, exit=ex).run(('idle', None, 0, 0, 'none', None, None))
    R.floor(n, 1, 'calls of deque_steal')


def count_bound(R):
    R.rule('retry', 'a lost race does not use up one of the announced tasks: the loop counter is stepped back (or not '
                    'stepped) when the steal must be retried')
    m = R.prog.std()
    for fn in callers(m, 'deque_steal'):
        for c in calls(fn, 'deque_steal'):
            # loop-carried integer counter compared against the announced count
            def step(s, i, w):
                return s
            ph = None
            for b in fn.order:
                t = b.term
                if t.op == 'br' and t.ops:
                    k, _ = literal(S(fn.ex(t.ops[0])))
                    if isinstance(k, tuple) and k[0] == 'lt' and mentions(k, lambda x: val_field(x, 'available')):
                        for x in walk(k):
                            if x[0] == 'phi':
                                ph = x[1]
            if ph is None:
                R.ok('%s: no announced-count loop' % fn.name)
                continue
            check_retry(R, fn, c, ph)


def check_retry(R, fn, c, ph):
    """value of the loop counter relative to its value at the steal, per outcome, when the header is reached again"""
    res = {}
    header = None
    for b in fn.order:
        for i in b.ins:
            if i.op == 'phi' and i.dest == ph:
                header = b.name
    d = fn.defs[ph]
    # walk with all phis bound: at each back edge into the header, relate the incoming value to the phi
    inc = {b: fn.ex(v) for v, b in d.attr['inc']}
    out = []

    def edge(s, key, pol, i, w):
        st = lambda e: e[0] == 'call' and e[1] == 'deque_steal'
        for mark in (('load', ('g', 'TASK_ABORT_T')), ('int', 0x400), ('g', 'TASK_ABORT_T')):
            if eqlit(key, pol, st, mark) is True:
                return 'abort'
        return s

    def step(s, i, w):
        if i.op == 'call' and i is c:
            return 'other' if s != 'abort' else 'abort2'
        blk = i
        return s
    # symbolic: replace inner phis along each path
    from collections import deque as dq
    loop = natural_loop(fn, header)
    if not any(b.name in loop for b in fn.order if c in b.ins):
        return
    start = [b.name for b in fn.order if c in b.ins][0]
    work = dq([(start, None, {}, 'other', (start,))])
    seen = 0
    while work and seen < 4000:
        bn, frm, env, st, path = work.popleft()
        seen += 1
        b = fn.blocks[bn]
        env = dict(env)
        if frm is not None:
            for i in b.ins:
                if i.op != 'phi':
                    break
                for v, pb in i.attr['inc']:
                    if pb == frm:
                        e = fn.ex(v)
                        e = sub_expr(e, lambda x: env.get(x[1]) if x[0] == 'phi' and x[1] != i.dest else None)
                        if bn == header and i.dest == ph:
                            out.append((st, lin(e), b))
                        env[i.dest] = e
        if bn == header and frm is not None:
            continue
        t = b.term
        if t.op != 'br':
            continue
        tg = t.attr['targets']
        if not t.ops:
            nx = [(tg[0], None)]
        else:
            k, p = literal(S(fn.ex(t.ops[0])))
            nx = [(tg[0], True), (tg[1], False)]
            if isinstance(k, tuple):
                nx = [(tg[0], (k, p)), (tg[1], (k, not p))]
        for n, lit in nx:
            s2 = st
            if isinstance(lit, tuple):
                s2 = edge(st, lit[0], lit[1], t, None)
            if n in loop and path.count(n) < 2:
                work.append((n, bn, env, s2, path + (n,)))
    for st, (terms, const), b in out:
        rel = const if terms == {('phi', ph): 1} else None
        if st == 'abort':
            R.check(rel is not None and rel <= 0, fn, c.where(),
                    'a steal that lost a race counts as one of the announced tasks')
        else:
            R.check(rel == 1, fn, c.where(), 'taking a task advances the loop by something other than one')


RULES = [handoff, given, take, count_bound]

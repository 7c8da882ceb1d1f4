"""P12: the future work queue."""
from rules.common import *
from rules.p11 import pfield, done_write, base, PR, peel
from track import Track

POOLFLD = 'pool'


def jobs_of(e):
    """e is a load of some queue's jobs array: its queue expression"""
    if e[0] == 'load' and field_of(e[1], 'jobs', 'events_deque_s'):
        return e[1][1]
    return None


def submit(R):
    R.rule('submit', 'a submitted job carries the caller\'s function and arguments before its helper task is queued; the '
                     'helper task gets a worker of the future pool and the job; a refused submission releases the job '
                     'once and is reported; otherwise the promise of exactly that job is returned, marked as a promise')
    m = R.prog.std()
    handlers = set()
    for pub, fnarg in (('queue_work', 1), ('promise_work', 1)):
        fn = m.fn(pub)
        R.saw(fn)

        # state: (stored fields, args-array dest, task dest, pushed 0/1/'ok'/'no', freed, typed, promise base, thread id)
        def step(s, i, w, fn=fn, fnarg=fnarg):
            st, arr, task, pushed, freed, typed, prom = s
            n = name(i)
            if i.op == 'store' and (p := pfield(w.val(i.ops[1]))):
                v = w.val(i.ops[0])
                if pushed in ('sent', 'ok') and p[1] != ('type',):
                    R.bad(fn, i.where(), 'the job is written after it was submitted', w.trace())
                if p[1] == ('func',):
                    if v != ('arg', fnarg):
                        R.bad(fn, i.where(), 'the job does not get the caller\'s function', w.trace())
                    st = st | {'func'}
                    prom = p[0]
                elif p[1] == ('args',) and v != ('int', 0):
                    if not (v[0] == 'call' and v[1] in ('data_ex',)):
                        R.bad(fn, i.where(), 'the job does not get the caller\'s arguments', w.trace())
                    st = st | {'args'}
                elif p[1] == ('type',):
                    typed = True
                elif pushed == 'no' and v != ('int', 0):
                    R.bad(fn, i.where(), 'a refused job is still written', w.trace())
                return (st, arr, task, pushed, freed, typed, prom)
            if n == 'arrays' or n == 'data_ex' and False:
                a = [w.val(o) for o in i.ops]
                if len(a) < 3:
                    return s
                ok = all(is_pool(S(e)) for e, _ in phi_values(fn, a[1], ()))
                if not ok:
                    R.bad(fn, i.where(), 'the helper task is not given a worker of the future pool', w.trace())
                if prom is None or base(a[2]) != prom:
                    R.bad(fn, i.where(), 'the helper task is not given the job being submitted', w.trace())
                return (st, i.dest, task, pushed, freed, typed, prom)
            if n == 'create_task':
                a = [w.rawval(o) for o in i.ops]
                if a[1][0] == 'g':
                    handlers.add(a[1][1])
                if not (a[2][0] == 'call' and a[2][2] == arr):
                    R.bad(fn, i.where(), 'the helper task is not given the worker and the job', w.trace())
                return (st, arr, i.dest, pushed, freed, typed, prom)
            if n == 'task_push':
                if not {'func', 'args'} <= st:
                    R.bad(fn, i.where(), 'the helper task is queued before the job carries its function and arguments', w.trace())
                v = w.rawval(i.ops[0])
                if not (v[0] == 'call' and v[2] == task):
                    R.bad(fn, i.where(), 'something else than the helper task is queued', w.trace())
                if pushed:
                    R.bad(fn, i.where(), 'the job is submitted twice', w.trace())
                R.ok('%s: submit at %s' % (fn.name, i.where()))
                return (st, arr, task, 'sent', freed, typed, prom)
            if n in ('events_free', 'promise_clean') and prom is not None and base(w.val(i.ops[0])) == prom:
                if pushed != 'no':
                    R.bad(fn, i.where(), 'a job that is queued is released', w.trace())
                if freed:
                    R.bad(fn, i.where(), 'a refused job is released twice', w.trace())
                return (st, arr, task, pushed, True, typed, prom)
            return s

        def edge(s, key, pol, i, w):
            st, arr, task, pushed, freed, typed, prom = s
            r = eqlit(key, pol, lambda e: e[0] == 'call' and e[1] == 'task_push', ('int', -1))
            if r is not None:
                pushed = 'no' if r else 'ok'
            return (st, arr, task, pushed, freed, typed, prom)

        def ex(s, t, w, fn=fn, pub=pub):
            st, arr, task, pushed, freed, typed, prom = s
            v = w.val(t.ops[0])
            if pushed == 'sent':
                R.bad(fn, t.where(), 'whether the job was accepted is not considered', w.trace())
            elif pushed == 'ok':
                if base(v) != prom:
                    R.bad(fn, t.where(), 'the promise of the submitted job is not what the caller gets', w.trace())
                elif not typed and pub == 'queue_work':
                    R.bad(fn, t.where(), 'the promise returned is not marked as one', w.trace())
                else:
                    R.ok('%s: exit' % fn.name)
            elif pushed == 'no':
                if not freed and pub == 'queue_work':
                    R.bad(fn, t.where(), 'a refused job is leaked', w.trace())
                elif v != ('int', 0):
                    R.bad(fn, t.where(), 'a refused job is returned as if it were accepted', w.trace())
                else:
                    R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex, all_phis=True).run((frozenset(), None, None, '', False, False, None))
    if not handlers:
        R.floor(0, 1, 'helper tasks')
    return handlers


def is_pool(e):
    """a worker taken from the pool table, from futures_pool(), or the caller's own choice"""
    if e == ('arg', 0) or e[0] == 'call' and e[1] == 'futures_pool':
        return True
    return e[0] == 'load' and field_of(e[1], 'pool', 'events_deque_s') and \
        mentions(e, lambda x: x[0] == 'fld' and x[3] == 'future_cpu_idx')


def submit_rule(R):
    submit(R)


def handler(R):
    R.rule('enqueue', 'the helper task appends its job exactly once to the job list of its worker\'s own queue, with the '
                      'worker\'s lock held, and raises that very queue\'s counter once, after the append; the worker is '
                      'allowed to start')
    m = R.prog.std(extra=('enqueue_promise',))
    hs = set()
    for pub in ('queue_work', 'promise_work'):
        for i in m.fn(pub).instrs():
            if name(i) == 'create_task':
                e = S(m.fn(pub).ex(i.ops[1]))
                if e[0] == 'g':
                    hs.add(e[1])
    R.floor(len(hs), 1, 'helper tasks')
    for h in sorted(hs):
        fn = m.fn(h)
        R.saw(fn)
        thr = lambda e: e[0] == 'load' and is_item(e[1], 0)
        job = lambda e: e[0] == 'load' and is_item(e[1], 1)

        # state: (lock depth, appended queue, announced, started)
        def step(s, i, w, fn=fn):
            dep, app, ann, started, errd = s
            k = is_lock(i, w)
            if k:
                a = w.val(i.ops[0])
                if field_of(a, 'mutex') and thr(base(a[1])):
                    return (dep + k, app, ann, started, errd)
                return s
            if name(i) == 'data_append':
                q = jobs_of(w.val(i.ops[0]))
                if q is None:
                    return s
                if dep != 1:
                    R.bad(fn, i.where(), 'the job is appended without the worker\'s lock', w.trace())
                if not job(w.val(i.ops[1])):
                    R.bad(fn, i.where(), 'something else than the job is queued', w.trace())
                if app:
                    R.bad(fn, i.where(), 'the job is queued twice', w.trace())
                if not (mentions(q, thr)):
                    R.bad(fn, i.where(), 'the job is put on another worker\'s queue', w.trace())
                return (dep, q, ann, started, errd)
            r = rmw(i, w)
            if r and field_of(r[1], 'available', 'events_deque_s'):
                if not app:
                    R.bad(fn, i.where(), 'a job is announced before it is in the list', w.trace())
                elif r[1][1] != app:
                    R.bad(fn, i.where(), 'the job is announced on another queue than the one it is in', w.trace())
                if ann:
                    R.bad(fn, i.where(), 'the job is announced twice', w.trace())
                if r[0] != 'add' or r[2] != ('int', 1):
                    R.bad(fn, i.where(), 'the counter of waiting jobs is not raised by one', w.trace())
                return (dep, app, True, started, errd)
            if r and field_of(r[1], 'started', 'events_deque_s'):
                return (dep, app, ann, True, errd)
            if i.op == 'store' and (p := pfield(w.val(i.ops[1]))) and app:
                R.bad(fn, i.where(), 'the job is written after the worker may have finished it', w.trace())
            elif i.op == 'load' and app and (p := pfield(w.val(i.ops[0]))) and job(p[0]):
                R.bad(fn, i.where(), 'the job is read after the worker may have finished it', w.trace())
            return s

        def ex(s, t, w, fn=fn):
            dep, app, ann, started, errd = s
            if dep:
                R.bad(fn, t.where(), 'the worker\'s lock is left held', w.trace())
            elif not app:
                R.bad(fn, t.where(), 'a submitted job is never queued', w.trace())
            elif not ann:
                R.bad(fn, t.where(), 'a queued job is never announced', w.trace())
            elif not started:
                R.bad(fn, t.where(), 'the worker is never allowed to start', w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, exit=ex).run((0, None, False, False, None))


def is_item(a, n):
    """address of element n of argument 0 (possibly a union member)"""
    while a[0] == 'fld':
        a = a[1]
    if n == 0 and a == ('arg', 0):
        return True
    return a[0] == 'idx' and a[1] == ('arg', 0) and a[2] == ('int', n)


def worker(R):
    R.rule('worker', 'a pool worker takes a job only when one is announced, uses up exactly one announcement per job, takes '
                     'it from the front of its own list with its lock held, runs its function once with its arguments, '
                     'then sets that job\'s promise with what the function returned, does not touch the promise again, '
                     'and releases the arguments once')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'promise_set'):
        if not any(jobs_of(S(fn.ex(o))) for i in fn.instrs() if i.op == 'call' for o in i.ops):
            continue
        n += 1
        R.saw(fn)
        ran = [0]

        # state: (avail literal, decremented, lock depth, job dest, result dest, set, args freed)
        def step(s, i, w, fn=fn):
            av, dec, dep, job, res, st, fr = s
            isjob = lambda e: e[0] == 'call' and e[2] == job
            k = is_lock(i, w)
            if k:
                a = w.val(i.ops[0])
                if field_of(a, 'mutex') and base(a[1]) == ('arg', 0):
                    return (av, dec, dep + k, job, res, st, fr)
                return s
            r = rmw(i, w)
            if r and field_of(r[1], 'available', 'events_deque_s'):
                if r[0] != 'sub' or r[2] != ('int', 1):
                    R.bad(fn, i.where(), 'the counter of waiting jobs is not lowered by one', w.trace())
                if av is not True:
                    R.bad(fn, i.where(), 'an announcement is used up although none was seen', w.trace())
                if not mentions(r[1], lambda x: x == ('arg', 0)):
                    R.bad(fn, i.where(), 'another queue\'s counter is lowered', w.trace())
                return (av, dec + 1, dep, job, res, st, fr)
            nm = name(i)
            if nm in ('data_shift', 'data_pop', 'data_remove') and jobs_of(w.val(i.ops[0])):
                q = jobs_of(w.val(i.ops[0]))
                if nm != 'data_shift':
                    R.bad(fn, i.where(), 'jobs are not taken in the order they were queued', w.trace())
                if dep != 1:
                    R.bad(fn, i.where(), 'a job is taken without the worker\'s lock', w.trace())
                if av is not True:
                    R.bad(fn, i.where(), 'a job is taken although none was announced', w.trace())
                if job and not st:
                    R.bad(fn, i.where(), 'a job is dropped', w.trace())
                if not mentions(q, lambda x: x == ('arg', 0)):
                    R.bad(fn, i.where(), 'a job is taken from another worker\'s list', w.trace())
                return (av, dec, dep, i.dest, None, False, 0)
            if job is None:
                return s
            c = i.attr.get('callee') if i.op == 'call' and not i.attr['name'] else None
            if c is not None:
                e = w.rawval(c)
                if e[0] == 'load' and (p := pfield(e[1])) and p[1] == ('func',):
                    ran[0] += 1
                    if not isjob(p[0]):
                        R.bad(fn, i.where(), 'the function of another job is run', w.trace())
                    if res or st:
                        R.bad(fn, i.where(), 'a job is run twice', w.trace())
                    if fr:
                        R.bad(fn, i.where(), 'a job\'s arguments are released before it runs', w.trace())
                    if dep:
                        R.bad(fn, i.where(), 'a job runs while the worker\'s lock is held: nobody can submit', w.trace())
                    a = w.rawval(i.ops[0]) if i.ops else None
                    if not (a and a[0] == 'load' and (p := pfield(a[1])) and isjob(p[0]) and p[1] == ('args',)):
                        R.bad(fn, i.where(), 'a job does not get its own arguments', w.trace())
                    return (av, dec, dep, job, i.dest, st, fr)
            if nm in ('promise_set', 'promise_erred'):
                if not isjob(w.rawval(i.ops[0])):
                    R.bad(fn, i.where(), 'another job\'s promise is set', w.trace())
                if st:
                    R.bad(fn, i.where(), 'the promise is set twice', w.trace())
                v = w.rawval(i.ops[1])
                if res and not (v[0] == 'call' and v[2] == res):
                    R.bad(fn, i.where(), 'the promise is not set with what the job returned', w.trace())
                return (av, dec, dep, job, res, True, fr)
            if nm in ('data_delete', 'events_free'):
                v = w.rawval(i.ops[0])
                if v[0] == 'load' and (p := pfield(v[1])) and isjob(p[0]) and p[1] == ('args',):
                    if fr:
                        R.bad(fn, i.where(), 'a job\'s arguments are released twice', w.trace())
                    return (av, dec, dep, job, res, st, fr + 1)
                if isjob(v) and st:
                    R.bad(fn, i.where(), 'the promise is released by the worker while its waiter reads it', w.trace())
            if st and i.op in ('load', 'store'):
                p = pfield(w.rawval(i.ops[0] if i.op == 'load' else i.ops[1]))
                if p and isjob(p[0]):
                    R.bad(fn, i.where(), 'the promise is used after it was set: its waiter may have released it', w.trace())
            return s

        def edge(s, key, pol, i, w, fn=fn):
            av, dec, dep, job, res, st, fr = s
            e = None
            for x in key[1:]:
                if isinstance(x, tuple) and mentions(x, lambda y: y[0] == 'load' and field_of(y[1], 'available', 'events_deque_s')):
                    e = x
            if e is not None:
                if dec and job and not st:
                    R.bad(fn, i.where(), 'a job is dropped', w.trace())
                if dec and not job or dec > 1:
                    R.bad(fn, i.where(), 'announcements and jobs taken do not match', w.trace())
                if job and st and fr != 1:
                    R.bad(fn, i.where(), 'a job\'s arguments are %s' % ('released twice' if fr else 'never released'), w.trace())
                pos = None
                if key[0] == 'lt' and key[3] == ('int', 1):
                    pos = not pol
                elif key[0] == 'eq' and key[2] == ('int', 0):
                    pos = not pol
                elif key[0] == 'lt' and key[2] == ('int', 0):
                    pos = pol
                if job:
                    R.ok('%s: one job done' % fn.name)
                return (pos, 0, dep, None, None, False, 0)
            return s

        def ex(s, t, w, fn=fn):
            av, dec, dep, job, res, st, fr = s
            if job and not st:
                R.bad(fn, t.where(), 'a job is dropped', w.trace())
            elif dec and not job:
                R.bad(fn, t.where(), 'an announcement is used up without taking a job', w.trace())
            elif dec > 1:
                R.bad(fn, t.where(), 'two announcements are used up for one job', w.trace())
            elif dec == 0 and job:
                R.bad(fn, t.where(), 'a job is taken without using up its announcement', w.trace())
            elif dep:
                R.bad(fn, t.where(), 'the worker\'s lock is left held', w.trace())
            elif job and fr != 1:
                R.bad(fn, t.where(), 'a job\'s arguments are %s' % ('released twice' if fr else 'never released'), w.trace())
            else:
                R.ok('%s: exit' % fn.name)
        Walker(fn, step, edge=edge, exit=ex).run((None, 0, 0, None, None, False, 0))
        if not ran[0]:
            R.bad(fn, fn.name, 'jobs are never run')
    R.floor(n, 1, 'pool workers')


def stops(R):
    R.rule('stop', 'a pool worker runs jobs until shutdown is requested, and each worker is registered under the index of '
                   'the queue it serves before its thread starts')
    m = R.prog.std()
    n = 0
    for fn in callers(m, 'os_create'):
        if not any(i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'pool', 'events_deque_s') or
                   i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'jobs', 'events_deque_s') for i in fn.instrs()):
            continue
        n += 1
        R.saw(fn)

        # state: (id value, queue value, slot index, slot value, jobs)
        def step(s, i, w, fn=fn):
            ident, queue, slot, jobs, work = s
            if i.op == 'store':
                a, v = w.val(i.ops[1]), w.val(i.ops[0])
                if field_of(a, 'id', 'events_thread_t') or a[0] == 'fld' and a[3] == 'id' and a[1][0] == 'call':
                    ident = v
                    work = a[1]
                elif a[0] == 'fld' and a[3] == 'queue' and a[1][0] == 'call':
                    queue = v
                elif field_of(a, 'jobs', 'events_deque_s'):
                    jobs = True
                elif a[0] == 'idx' and mentions(a, lambda x: x[0] == 'fld' and x[3] == 'local') and v[0] == 'call':
                    slot = a[2]
                return (ident, queue, slot, jobs, work)
            if name(i) == 'os_create':
                a = [w.val(o) for o in i.ops]
                if a[0][0] != 'g':
                    return s
                if work is None or a[1] != work:
                    R.bad(fn, i.where(), 'the new thread is not given its worker record', w.trace())
                elif ident is None or slot is None or ident != slot:
                    R.bad(fn, i.where(), 'a worker is not registered under the index of its queue', w.trace())
                elif queue is None or not (queue[0] == 'load' and queue[1][0] == 'idx' and queue[1][2] == slot or queue[0] == 'call'):
                    R.bad(fn, i.where(), 'a worker does not serve the queue it is registered under', w.trace())
                elif not jobs:
                    R.bad(fn, i.where(), 'a worker starts without a job list', w.trace())
                else:
                    R.ok('%s: %s' % (fn.name, i.where()))
            return s
        Walker(fn, step).run((None, None, None, False, None))
    R.floor(n, 1, 'functions that start pool workers')

    for fn in callers(m, 'promise_set'):
        if not any(jobs_of(S(fn.ex(o))) for i in fn.instrs() if i.op == 'call' for o in i.ops):
            continue

        def edge(s, key, pol, i, w):
            for x in key[1:]:
                if isinstance(x, tuple) and mentions(x, lambda y: y[0] == 'load' and field_of(y[1], 'shutdown', 'events_deque_s')):
                    r = truth(key, pol, lambda y: y == x)
                    if r is not None:
                        return 'down' if r else 'up'
            return s

        def step(s, i, w):
            if name(i) in ('data_shift',):
                return 'job'
            return s

        def ex(s, t, w, fn=fn):
            R.check(s == 'down', fn, t.where(), 'a worker stops although shutdown was not requested', trace=w.trace())
        Walker(fn, step, edge=edge, exit=ex).run('start')


def spread(R):
    R.rule('spread', 'a worker is chosen from the table of future workers by an index taken modulo the length of that table')
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op != 'load':
                continue
            a = S(fn.ex(i.ops[0]))
            while a[0] == 'fld' and a[3] != 'future_cpu_idx':
                a = a[1]
            if a[0] == 'idx' and val_field(a[1], 'future_cpu_idx', 'sys_events_s'):
                n += 1
                R.saw(fn)
                x = a[2]
                good = x[0] == 'bin' and x[1] == 'urem' and x[3][0] == 'call' and x[3][1] == 'data_size' or x[0] == 'phi'
                if x[0] == 'bin' and x[1] == 'urem' and x[3][0] == 'call':
                    d = fn.defs.get(x[3][2])
                    good = good and (d is None or val_field(S(fn.ex(d.ops[0])), 'future_cpu_idx', 'sys_events_s'))
                R.check(good, fn, i.where(), 'the chosen worker may lie outside the table')
    R.floor(n, 1, 'choices of a worker')


def refused(R):
    R.rule('refused', 'a submission is given up only when something is lacking; what was made for it is then released, once')
    m = R.prog.std()
    n = [0, 0]
    for pub in ('queue_work', 'promise_work'):
        fn = m.fn(pub)
        R.saw(fn)

        # x = (what was made: (call, how often released), 'no' refused / 'ok' accepted / '' not tried)
        def step(x, i, T, fn=fn):
            made, how = x
            nm = name(i)
            if nm in ('data_ex', 'arrays'):
                return (made | {(('call', nm, i.dest), 0)}, how)
            if nm == 'data_delete':
                a = T.ev(i.ops[0])
                for c, k in made:
                    if c == a:
                        R.check(k == 0, fn, i.where(), 'what was made for a job is released twice', trace=T.trace())
                        return ((made - {(c, k)}) | {(c, k + 1)}, how)
            if nm == 'task_push':
                return (made, 'sent')
            if nm in ('ex_throw', 'panic'):
                n[0] += 1
                R.check(lacks(T), fn, i.where(), 'a job is refused although nothing is lacking', trace=T.trace())
                over(x, i, T, fn)
            return x

        def lacks(T):
            return any(k[0] == 'eq' and k[2] == ('int', 0) and v and peel(k[1])[:2] in (('call', 'data_ex'), ('call', 'events_calloc'), ('call', 'events_malloc'),
                                                                                      ('call', 'is_promise')) for k, v in T.F.items())

        def over(x, i, T, fn):
            for c, k in x[0]:
                if k == 0 and T.null(c) is not True:
                    R.bad(fn, i.where(), 'what was made for a refused job is never released: %s' % c[1], T.trace())

        def edge(x, key, pol, i, T):
            made, how = x
            if key[0] == 'eq' and peel(key[1])[:2] == ('call', 'task_push') and key[2][0] == 'int':
                return (made, 'no' if pol else 'ok') if key[2][1] in (-1, 0xffffffff) else x
            return x

        def ex(x, t, T, rv, fn=fn):
            made, how = x
            n[1] += 1
            if how == 'no':
                over(x, t, T, fn)
            elif how == '' and rv is not None and T.null(rv) is True:
                R.check(lacks(T), fn, t.where(), 'a job is refused although nothing is lacking', trace=T.trace())
                over(x, t, T, fn)
            else:
                R.check(how == 'ok', fn, t.where(), 'a job is neither queued nor refused', trace=T.trace())
                R.check(not any(k for c, k in made), fn, t.where(), 'what a queued job uses is released', trace=T.trace())
        Track(fn, step=step, edge=edge, exit=ex, x0=(frozenset(), ''), noreturn=('ex_throw',), pure=('is_promise', 'is_data', 'data_type', 'data_size')).run()
    R.floor(n[0], 2, 'refusals')
    R.floor(n[1], 4, 'ways of submitting a job')


RULES = [submit_rule, handler, worker, stops, spread, refused]

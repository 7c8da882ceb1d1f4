"""P08: deferred calls and memory."""
from rules.common import *
from flow import *
from track import Track, nodest, root

THRD = ('call', '__thrd', '')
HANDLE, BUFFER, RUNNING = 'active_handle', 'active_buffer', 'running'
QUIET = {'is_ptr_usable', 'is_data', 'data_type', 'data_size', 'tasks_is_active', 'task_scope', 'scope_local', 'data_lock', 'guard_scope',
         'scope_is_guarded', '__thrd', 'events_free', 'events_malloc', 'events_calloc', 'atomic_spinlock_lock', 'atomic_spinlock_unlock'}
LISTED = {'data_pop', 'data_delete', 'data_append', 'array'}


def F(base, f):
    return ('fld', base, None, f)


def isld(v, a=None):
    return v is not None and v[0] in ('ld', 'load') and (a is None or v[1] == a)


def ldf(v, f):
    """v was loaded from a field f: the record it was loaded from"""
    if v is not None and v[0] in ('ld', 'load') and v[1][0] == 'fld' and v[1][3] == f:
        return v[1][1]


def said(T, n, want, arg=None):
    """some call of n is known to have answered want (0 / not 0)"""
    for k, p in T.F.items():
        if k[0] == 'eq' and k[2] == ('int', 0) and k[1][0] == 'call' and k[1][1] == n and p != want:
            if arg is None:
                return True
            d = T.fn.defs.get(k[1][2])
            if d is not None and T.ev(d.ops[0]) == arg:
                return True
    return False


def through(fn, i, field, struct):
    c = S(fn.ex(i.attr['callee'])) if i.op == 'call' and i.attr['name'] is None else None
    return c is not None and c[0] == 'load' and field_of(c[1], field, struct)


# ---------------------------------------------------------------------------------------------------- running them
def run(R, m):
    R.cur = 'run'
    k = 0
    for fn in funcs(m):
        sites = [i for i in fn.instrs() if any(through(fn, i, f, 'defer_t') for f in ('func', '_func'))]
        if not sites or fn.name in R.prog.new:
            continue            # a helper is judged in the functions that use it
        R.saw(fn)
        k += len(sites)
        one(R, fn, sites)
    R.floor(k, 2, 'places that make a deferred call')


def one(R, fn, sites):
    # x = (where the list lies, element, state), state: none absent pending called dealt end gone clear
    def lst(v, T):
        """the place a list was just read from"""
        return v[1] if isld(v) and T.mem(v[1]) == v else None

    def bad(i, msg, T):
        R.bad(fn, i.where(), msg, T.trace())

    def step(x, i, T):
        L, P, st = x
        if i.op == 'store':
            a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
            if L is not None and a == L:
                R.check(st == 'gone' and v == ('int', 0), fn, i.where(), 'the list of deferred calls is dropped before it is empty', trace=T.trace())
                return (L, None, 'clear')
            return x
        if i.op != 'call':
            return x
        n = name(i)
        rec = ('bin', 'and', P, ('int', -2)) if P else None
        if n == 'data_pop':
            a = T.ev(i.ops[0])
            A = lst(a, T)
            if A is None or not (A[0] == 'arg' or A[0] == 'fld'):
                if isld(a) and (a[1][0] == 'arg' or ldf(a, 'defer_arr') or ldf(a, 'garbage')):
                    bad(i, 'the list may be another one since the last deferred call was made', T)
                return x
            R.check(L in (None, A), fn, i.where(), 'calls of two lists are mixed', trace=T.trace())
            R.check(st in ('none', 'dealt'), fn, i.where(), 'a deferred call is passed over', trace=T.trace())
            R.check(said(T, 'is_data', True, None), fn, i.where(), 'calls are taken from no list', trace=T.trace())
            return (A, ('call', 'data_pop', i.dest), 'pending')
        if i in sites:
            c = T.ev(i.attr['callee'])
            f = c[1][3]
            r = c[1][1]
            a = [T.ev(o) for o in i.ops]
            tag = T.fact(('eq', ('bin', 'and', P, ('int', 1)), ('int', 0))) if P else None
            R.check(P is not None and r == rec, fn, i.where(), 'what is called was not taken from the end of the list', trace=T.trace())
            R.check(st == 'pending', fn, i.where(), 'a deferred call is made twice', trace=T.trace())
            R.check(tag is False, fn, i.where(), 'something that is no deferred call is called', trace=T.trace())
            pv = T.mem(F(r, 'is_ptr'))
            isp = None if pv is None else T.null(pv)
            R.check(isp is (f == '_func'), fn, i.where(), 'the call is made with the wrong kind of argument', trace=T.trace())
            R.check(len(a) == 1 and isld(a[0], F(r, 'data' if f == 'func' else 'value')), fn, i.where(), 'the argument is not the one given', trace=T.trace())
            return (L, P, 'called')
        if n == 'events_free':
            v = T.ev(i.ops[0])
            if P and v == rec:
                R.check(st == 'called', fn, i.where(), 'the record of a deferred call is released before the call' if st == 'pending' else
                        'the record of a deferred call is released twice', trace=T.trace())
                return (L, P, 'dealt')
            if P and v == P:
                R.check(st == 'pending' and T.fact(('eq', ('bin', 'and', P, ('int', 1)), ('int', 0))) is True and
                        said(T, 'is_data', False, P), fn, i.where(), 'deferred memory is released that is none', trace=T.trace())
                return (L, P, 'dealt')
            return x
        if n == 'data_delete':
            v = T.ev(i.ops[0])
            if P and v == P:
                R.check(st == 'pending' and T.fact(('eq', ('bin', 'and', P, ('int', 1)), ('int', 0))) is True and
                        said(T, 'is_data', True, P), fn, i.where(), 'a deferred array is released that is none', trace=T.trace())
                return (L, P, 'dealt')
            A = lst(v, T)
            if A is not None and (L is None or A == L):
                R.check(st == 'end', fn, i.where(), 'the list of deferred calls is released before they are all made', trace=T.trace())
                return (A, None, 'gone')
            R.check(not isld(v, L), fn, i.where(), 'a list is released that may be another one since', trace=T.trace())
            return x
        if st == 'gone' and n not in QUIET and not (n or '').startswith('llvm.'):
            bad(i, 'more runs while the place of the list still holds what was released', T)
        return x

    def edge(x, key, pol, i, T):
        L, P, st = x
        if key[0] == 'eq' and key[2] == ('int', 0) and pol:
            c = key[1]
            if c[0] == 'arg' and st == 'none':
                return (L, P, 'absent')
            if c[0] == 'call' and c[1] in ('is_ptr_usable', 'is_data') and c[2] in fn.defs:
                a = T.ev(fn.defs[c[2]].ops[0])
                if P and a == P:
                    if c[1] == 'is_ptr_usable' and st == 'pending' and T.fact(('eq', ('bin', 'and', P, ('int', 1)), ('int', 0))) is True:
                        return (L, P, 'dealt')
                elif st == 'none':
                    return (L, P, 'absent')
            if c[0] == 'call' and c[1] == 'data_size' and c[2] in fn.defs:
                A = lst(T.ev(fn.defs[c[2]].ops[0]), T)
                if A is not None and (L is None or A == L):
                    R.check(st in ('none', 'dealt', 'end'), fn, i.where(), 'a deferred call is passed over', trace=T.trace())
                    return (A, None, 'end')
        return x

    def ex(x, t, T, rv):
        R.check(x[2] in ('absent', 'clear'), fn, t.where(), 'the function ends with deferred calls left' if x[2] in ('dealt', 'pending', 'none') else
                'the place of the list still holds what was released', trace=T.trace())

    def back(x, h, again, T):
        if again and x[1] is not None and x[2] != 'dealt':
            R.check(x[2] != 'pending' and x[2] != 'called', fn, fn.blocks[h].ins[-1].where(), 'a deferred call is passed over, or its record kept',
                    trace=T.trace())
        return x
    Track(fn, step=step, edge=edge, exit=ex, back=back, x0=(None, None, 'none'), pure=QUIET | LISTED).run()


# ---------------------------------------------------------------------------------------------------- adding them
def home(T, L):
    """the list is the one of the running task, its guard, or of the thread: what is wrong with it"""
    if L[0] != 'fld':
        return 'the list is none of those that are unwound'
    b = L[1]
    act, no = said(T, 'tasks_is_active', True), said(T, 'tasks_is_active', False)
    if L[3] == 'garbage' or L[3] == 'defer_arr' and ldf(b, 'scope'):
        t = b if L[3] == 'garbage' else ldf(b, 'scope')
        if t == F(THRD, BUFFER):      # the thread's own task
            h = F(THRD, HANDLE)
        else:
            h = t[1] if isld(t) else None
        if h is None or h[0] != 'fld' or h[1] != THRD:
            return 'the list is that of some other task'
        r = T.mem(F(THRD, RUNNING))
        nul = T.null(r) if r is not None else None
        if h[3] == RUNNING and nul is not False or h[3] == HANDLE and nul is not True or h[3] not in (RUNNING, HANDLE):
            return 'the list is that of some other task'
        return None if act else 'the list of a task is used although there are no tasks'
    if L[3] == 'defer_arr':
        if b == ('arg', 0):
            return None
        if b[0] == 'call' and b[1] == 'get_scope':
            return None if no else 'a call of a task is put on the list of the thread'
    return 'the list is none of those that are unwound'


def add(R, m):
    R.cur = 'add'
    n = [0]
    for nm in ('deferred', 'scope_deferred', 'defer_free'):
        fn = m.fn(nm)
        R.saw(fn)
        k = {'deferred': 0, 'scope_deferred': 1}.get(nm)
        for isp in (1, 0) if k is not None else (None,):
            # x = (appended value, where, stored back, handed on)
            def step(x, i, T):
                V, L, back, on = x
                c = name(i)
                if i.op == 'store':
                    a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                    if V is not None and v[0] == 'call' and v[1] == 'data_append':
                        R.check(a == L, fn, i.where(), 'the list is put back where it was not taken from', trace=T.trace())
                        return (V, L, True, on)
                    return x
                if c == 'data_append':
                    a, v = T.ev(i.ops[0]), T.ev(i.ops[1])
                    n[0] += 1
                    R.check(V is None and on is None, fn, i.where(), 'the same is deferred twice', trace=T.trace())
                    A = None
                    if isld(a):
                        A = a[1]
                    elif a[0] == 'call' and a[1] == 'array':
                        A = next((q for q, w in T.K.items() if w == a and q[0] == 'fld'), None)
                    why = home(T, A) if A is not None else 'the list is none of those that are unwound'
                    if nm == 'scope_deferred':
                        why = None if A == F(('arg', 0), 'defer_arr') else 'the list is not that of the scope given'
                    elif said(T, 'scope_is_guarded', True):
                        why = 'what is deferred inside a guard does not go on the list of the guard'
                    R.check(why is None, fn, i.where(), why or '', trace=T.trace())
                    R.check(nm != 'deferred' or said(T, 'scope_is_guarded', False), fn, i.where(),
                            'whether a guard is open is not asked', trace=T.trace())
                    return (v, A, False, on)
                if c == 'scope_deferred':
                    a = [T.ev(o) for o in i.ops]
                    n[0] += 1
                    R.check(V is None and on is None, fn, i.where(), 'the same is deferred twice', trace=T.trace())
                    v = a[0]
                    R.check(v[0] == 'call' and v[1] in ('task_scope', 'guard_scope') or ldf(v, 'arena') == ('call', 'scope_local', '') or
                            ldf(v, 'arena') is not None or v == ('int', 0), fn, i.where(), 'the list is not that of the guard that is open', trace=T.trace())
                    R.check(said(T, 'scope_is_guarded', True), fn, i.where(), 'no guard is open', trace=T.trace())
                    R.check(a[1:3] == [('arg', 0), ('arg', 1)] and (a[3] == ('arg', 2) or a[3] == ('int', isp)), fn, i.where(),
                            'the call deferred is not the one given', trace=T.trace())
                    return (V, L, back, ('call', c, i.dest))
                if c == 'deferred' and nm == 'defer_free':
                    a = [T.ev(o) for o in i.ops]
                    n[0] += 1
                    R.check(V is None and on is None, fn, i.where(), 'the same is deferred twice', trace=T.trace())
                    R.check(ldf(a[0], 'dtor') == ('arg', 0) and a[1] == ('arg', 0) and a[2] == ('int', 1), fn, i.where(),
                            'what is deferred is not the destructor of the object', trace=T.trace())
                    return (V, L, back, ('call', c, i.dest))
                return x

            def edge(x, key, pol, i, T):
                if x[0] is not None:        # a list something was put on is not empty
                    size = lambda e: e[0] == 'call' and e[1] == 'data_size' or e[0] == 'trunc' and e[2][0] == 'call' and e[2][1] == 'data_size'
                    if key[0] == 'lt' and size(key[2]) and key[3] in (('int', 0), ('int', 1)) and pol or \
                            key[0] == 'lt' and size(key[3]) and key[2] == ('int', 0) and not pol or \
                            key[0] == 'eq' and size(key[1]) and key[2] in (('int', 0), ('int', -1)) and pol:
                        return None
                return x

            def ex(x, t, T, rv):
                V, L, back, on = x
                if V is None:
                    if on is not None:
                        R.check(rv == on or T.fact(('eq', rv, ('int', 0))) is not None or rv[0] == 'cmp' or rv[0] == 'int', fn, t.where(),
                                'the answer is not whether it was deferred', trace=T.trace())
                    elif nm == 'defer_free':
                        R.check(T.null(('arg', 0)) is True, fn, t.where(), 'memory given is not deferred', trace=T.trace())
                        R.check(rv == ('int', 0), fn, t.where(), 'memory is said to be deferred that is not', trace=T.trace())
                    else:
                        R.check(T.null(('arg', k)) is True or any(key[0] == 'eq' and key[2] == ('int', 0) and key[1][0] == 'call' and
                                key[1][1] in ('events_malloc', 'events_calloc') and p for key, p in T.F.items()), fn, t.where(),
                                'a call given is not deferred', trace=T.trace())
                        R.check(rv == ('int', -1), fn, t.where(), 'a call is said to be deferred that is not', trace=T.trace())
                    return
                R.check(back, fn, t.where(), 'the list that was added to is not put back, it may have moved', trace=T.trace())
                if nm == 'defer_free':
                    R.check(V == ('arg', 0), fn, t.where(), 'what is deferred is not the memory given', trace=T.trace())
                    R.check(rv != ('int', 0), fn, t.where(), 'memory deferred is said not to be', trace=T.trace())
                    return
                M = V[2] if V[0] == 'bin' and V[1] == 'or' and V[3] == ('int', 1) else None
                R.check(M is not None and M[0] == 'call' and M[1] in ('events_malloc', 'events_calloc'), fn, t.where(),
                        'what is put on the list is not marked as a call', trace=T.trace())
                if M is None:
                    return
                for f, v in (('is_ptr', ('int', isp)), ('func' if isp else '_func', ('arg', k)), ('data' if isp else 'value', ('arg', k + 1))):
                    w = T.mem(F(M, f))
                    R.check(w == v or f == 'is_ptr' and w is None and M[1] == 'events_calloc' and not isp, fn, t.where(),
                            '%s of the deferred call is not the one given' % f, trace=T.trace())
            Track(fn, step=step, edge=edge, exit=ex, x0=(None, None, False, None), pure=QUIET | {'array', 'data_append', 'get_scope'},
                  args={k + 2: isp} if isp is not None else {}).run()
    R.floor(n[0], 6, 'places that put something on a list')


# ---------------------------------------------------------------------------------------------------- which guard
def alone(T):
    """there are no tasks, or the thread runs none and its own task has no guard"""
    if said(T, 'tasks_is_active', False):
        return True
    h = T.mem(F(THRD, HANDLE))
    b = F(THRD, BUFFER)
    eq = h is not None and (h == b or T.holds(('cmp', 'eq', h, b)) is True)
    return said(T, 'task_scope', False) and eq


def scopes(R, m):
    R.cur = 'scope'
    k = 0
    for fn in funcs(m):
        ld = [i for i in fn.instrs() if i.op == 'load' and field_of(S(fn.ex(i.ops[0])), 'arena', 'ex_memory_s')]
        if not ld or fn.name == 'scope_arena':
            continue
        R.saw(fn)

        def step(x, i, T):
            if i in ld:
                R.check(alone(T), fn, i.where(), 'the guard the thread opened last is taken for that of the current task', trace=T.trace())
            return x
        Track(fn, step=step, pure=QUIET).run()
        k += len(ld)
    R.floor(k, 1, 'places that read the guard of the thread')

    for nm in ('guard_scope', 'get_scope'):
        fn = m.fn(nm)
        R.saw(fn)

        def ex(x, t, T, rv):
            if rv[0] == 'call' and rv[1] == 'task_scope':
                R.check(said(T, 'tasks_is_active', True), fn, t.where(), 'the guard of a task is given although there are no tasks', trace=T.trace())
            elif ldf(rv, 'arena') is not None:
                R.check(alone(T), fn, t.where(), 'the guard the thread opened last is taken for that of the current task', trace=T.trace())
            elif nm == 'get_scope':
                R.check(rv[0] == 'call' and rv[1] in ('scope_init', 'guard_scope'), fn, t.where(), 'neither a guard nor the thread\'s own scope', trace=T.trace())
                z = [p for q, p in T.F.items() if q[0] == 'eq' and q[2] == ('int', 0) and
                     (q[1][0] == 'call' and q[1][1] in ('task_scope', 'guard_scope', 'scope_local') or ldf(q[1], 'arena') is not None)]
                R.check(rv[1] == 'guard_scope' or True in z, fn, t.where(), 'the open guard is passed over', trace=T.trace())
            else:
                R.check(rv == ('int', 0) and said(T, 'scope_local', False), fn, t.where(), 'an open guard is not found', trace=T.trace())
        Track(fn, exit=ex, x0='', pure=QUIET).run()


# ---------------------------------------------------------------------------------------------------- when they run
def ends(R, m):
    R.cur = 'end'
    k = 0
    for fn in funcs(m):
        for struct in ('events_task_s', '_promise'):
            jobs = [i for i in fn.instrs() if through(fn, i, 'func', struct)]
            if not jobs:
                continue
            k += len(jobs)
            R.saw(fn)
            task = struct == 'events_task_s'
            pool = not task and any(name(i) == 'data_shift' for i in fn.instrs())

            # x = None before / (record, args) of a job made and not unwound / 'scope': thread scope not unwound / 'done'
            def step(x, i, T):
                c = name(i)
                if i in jobs:
                    v = T.ev(i.attr['callee'])
                    a = [T.ev(o) for o in i.ops]
                    R.check(not isinstance(x, tuple) and (not pool or x != 'scope'), fn, i.where(), 'the next job starts before what the last one deferred has run', trace=T.trace())
                    return (v[1][1], a[0] if a else None)
                if c == 'deferred_unwind' and isinstance(x, tuple):
                    a = T.ev(i.ops[0])
                    b = a[1] if a[0] == 'fld' and a[3] == 'garbage' else None
                    mine = b == x[0] if task else b is not None and (isld(b, F(THRD, HANDLE)) or b == F(THRD, BUFFER))
                    R.check(mine, fn, i.where(), 'what runs is not what the job deferred', trace=T.trace())
                    return 'done' if task else 'scope'
                if c == 'scope_unwind' and not task:
                    a = T.ev(i.ops[0])
                    if a[0] == 'call' and a[1] == 'scope_local':
                        R.check(not isinstance(x, tuple), fn, i.where(), 'the thread is unwound before the job', trace=T.trace())
                        return 'done'
                    if isinstance(x, tuple) and not pool and a[0] == 'fld' and a[3] == 'scope' and a[1][0] == 'call' and a[1][1] == 'guard_init':
                        return 'scope'
                    return x
                if c == 'try_next' and not pool:
                    R.check(not isinstance(x, tuple), fn, i.where(), 'the guard of the job ends before what it deferred has run', trace=T.trace())
                    return x if x == 'before' else 'scope'
                if isinstance(x, tuple):
                    if c == 'data_delete' and x[1] is not None:
                        R.check(T.ev(i.ops[0]) != x[1] and not (pool and ldf(T.ev(i.ops[0]), 'args') is not None), fn, i.where(),
                                'the arguments are released before what was deferred has run', trace=T.trace())
                    if c == 'promise_set' and pool:
                        R.bad(fn, i.where(), 'the result is announced before what was deferred has run', T.trace())
                    if i.op == 'store' and T.ev(i.ops[1])[0] == 'fld' and T.ev(i.ops[1])[3] in ('is_terminated', 'is_ready'):
                        R.bad(fn, i.where(), 'the task is announced finished before what it deferred has run', T.trace())
                return x

            def ex(x, t, T, rv):
                R.check(x in ('before', 'done'), fn, t.where(), 'what the job deferred does not run', trace=T.trace())
            Track(fn, step=step, exit=ex, x0='before', pure=QUIET).run()
    R.floor(k, 3, 'places that run a task or a job', must=True)

    n = 0
    for fn in funcs(m):
        for i in calls(fn, 'deferred_unwind'):
            n += 1
            a = S(fn.ex(i.ops[0]))
            if not field_of(a, 'garbage'):
                R.bad(fn, i.where(), 'what is unwound is not the list of a task')
                continue
            b = nodest(a[1])
            own = mentions(b, lambda y: y[0] == 'fld' and y[3] == HANDLE)
            dels = [S(fn.ex(j.ops[0])) for j in calls(fn, 'task_delete')]
            R.check(own or any(nodest(d) == b for d in dels), fn, i.where(), 'the list of a task that goes on running is unwound')
    R.floor(n, 2, 'places that unwind a task')


# ---------------------------------------------------------------------------------------------------- guards
def guards(R, m):
    R.cur = 'guard'
    fn = m.fn('guard_init')
    R.saw(fn)
    for act in (True, False):
        def only(x, key, pol, i, T):
            if key[0] == 'eq' and key[1][0] == 'call' and key[1][1] == 'tasks_is_active' and key[2] == ('int', 0) and pol == act:
                return None
            return x

        # x = scope set for the task
        def step(x, i, T):
            if name(i) == 'task_scope_set':
                return T.ev(i.ops[0])
            return x

        def ex(x, t, T, rv):
            if rv == ('int', 0):
                return
            sc = F(rv, 'scope')
            o = T.mem(F(rv, 'outer'))
            if act:
                R.check(x == sc, fn, t.where(), 'the guard is not that of the task', trace=T.trace())
                R.check(o is not None and o[0] == 'call' and o[1] == 'task_scope', fn, t.where(), 'the guard of the task around it is forgotten', trace=T.trace())
            else:
                R.check(x == 'no', fn, t.where(), 'a task is given a guard although there are none', trace=T.trace())
                R.check(o is None or o == ('int', 0), fn, t.where(), 'a guard around it is recorded that is none of the task', trace=T.trace())
            d = T.mem(F(sc, 'defer_arr'))
            R.check(d is not None and d[0] == 'call' and d[1] == 'array', fn, t.where(), 'the guard has no list to defer to', trace=T.trace())
            R.check(T.mem(F(('call', 'scope_local', ''), 'arena')) == sc or
                    any(q[0] == 'fld' and q[3] == 'arena' and v == sc for q, v in T.K.items()), fn, t.where(),
                    'the guard is not the last one the thread opened', trace=T.trace())
        Track(fn, step=step, edge=only, exit=ex, x0='no', pure=QUIET | {'array', 'ex_init', 'task_scope_set'}).run()

    fn = m.fn('guard_reset')
    R.saw(fn)
    for act in (True, False):
        def only(x, key, pol, i, T):
            if key[0] == 'eq' and key[1][0] == 'call' and key[1][1] == 'tasks_is_active' and key[2] == ('int', 0) and pol == act:
                return None
            if key[0] == 'eq' and pol is False and mentions(key, lambda y: y[0] == 'call' and y[1] == 'data_type' or y[0] == 'fld' and y[3] == 'type'):
                return ('invalid',) + x[1:]
            if key == ('eq', ('arg', 0), ('int', 0)) and pol:
                return ('invalid',) + x[1:]
            return x

        # x = (valid, marked, unwound, task scope, arena, freed)
        def step(x, i, T):
            c = name(i)
            if i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                if a == F(('arg', 0), 'type'):
                    return x[:1] + (True,) + x[2:]
                if a[0] == 'fld' and a[3] == 'arena':
                    return x[:4] + (v,) + x[5:]
                return x
            if c == 'scope_unwind':
                R.check(T.ev(i.ops[0]) in (F(('arg', 0), 'scope'),), fn, i.where(), 'what is unwound is not the guard', trace=T.trace())
                R.check(x[2] is False, fn, i.where(), 'the guard is unwound twice', trace=T.trace())
                R.check(x[3] is None and x[4] is None, fn, i.where(), 'the guard around it is open again before this one is unwound', trace=T.trace())
                R.check(x[1], fn, i.where(), 'the guard is unwound while it can be unwound again', trace=T.trace())
                return x[:2] + (True,) + x[3:]
            if c == 'task_scope_set':
                return x[:3] + (T.ev(i.ops[0]),) + x[4:]
            if c == 'events_free':
                R.check(x[2], fn, i.where(), 'the guard is released before it is unwound', trace=T.trace())
            return x

        def ex(x, t, T, rv):
            if x[0] == 'invalid':
                R.check(not x[1] and not x[2] and x[3] is None and x[4] is None, fn, t.where(), 'what is no open guard is unwound', trace=T.trace())
                return
            R.check(x[2], fn, t.where(), 'the guard is not unwound', trace=T.trace())
            R.check(x[4] == ('arg', 1), fn, t.where(), 'the guard around it is not the last one the thread opened', trace=T.trace())
            if act:
                R.check(isld(x[3], F(('arg', 0), 'outer')), fn, t.where(), 'the guard of the task around it is not its guard again', trace=T.trace())
            else:
                R.check(x[3] is None, fn, t.where(), 'a task is given a guard although there are none', trace=T.trace())
        Track(fn, step=step, edge=only, exit=ex, x0=('valid', False, False, None, None, False), pure=QUIET | {'ex_local'}).run()

    k = 0
    for fn in funcs(m):
        if not calls(fn, 'guard_init'):
            continue
        R.saw(fn)
        k += 1

        # x = 'none' / 'open' / 'closed'
        def step(x, i, T):
            if name(i) == 'guard_init':
                return 'open'
            if name(i) == 'guard_reset':
                a = [T.ev(o) for o in i.ops]
                R.check(a[0][0] == 'call' and a[0][1] == 'guard_init', fn, i.where(), 'what is closed is not the guard opened here', trace=T.trace())
                R.check(a[1][0] == 'call' and a[1][1] == 'scope_arena', fn, i.where(), 'the guard around is not the one found', trace=T.trace())
                return 'closed'
            return x
        Track(fn, step=step, x0='none', pure=QUIET).run()
        R.check(calls(fn, 'guard_reset'), fn, fn.order[0].ins[0].where(), 'a guard is opened and never closed')
    R.floor(k, 1, 'guards of the library itself')


def deferred(R):
    m = R.prog.std()
    for a, b in TEXT:
        R.rule(a, b)
    run(R, m)
    add(R, m)
    scopes(R, m)
    ends(R, m)
    guards(R, m)


TEXT = [
    ('run', 'unwinding takes what was deferred one at a time, newest first, from the list as it is then; a call is made once with its own argument, '
            'memory is released once; it ends only with the list empty, which is then released and its place cleared'),
    ('add', 'what is deferred is put, once and complete, on the list of the open guard, else of the running task, else of the thread, and the list put back'),
    ('scope', 'the guard a thread opened last counts only when the thread runs no task with a guard of its own'),
    ('end', 'when the function of a task or job returns, what it deferred runs before its arguments are released and before it is announced finished'),
    ('guard', 'opening a guard makes it that of the task and remembers the one around; closing it unwinds it once and makes the one around the open one again'),
]
RULES = [deferred]

"""P28: generators: values handed over once and in order, and a record that outlives its task."""
from rules.common import *
from flow import *
from track import Track, root, nodest
from rules.p07 import switching, tasks_of, THRD, lds

TEXT = [
    ('put', 'a value is put into a generator only while it holds none (looked at since other tasks last ran), it is the argument, and is then marked ready; '
            'waiting for room lets others run'),
    ('take', 'a value is taken only while it is marked ready, read and unmarked with no other task in between, and is what is returned; nothing is '
             'returned instead while a value is ready or the task may still yield one; waiting for a value lets others run'),
    ('end', 'when the body of a task that is a generator returns, the generator is told so before the task ends'),
    ('made', 'a new generator is complete, knows its task and its result, is known to its task, and is collected once'),
    ('kept', 'the record of a generator is released only with what was collected'),
]
QUIET = {'is_data', 'is_ptr_usable', 'array', 'arrays', 'data_append', 'atomic_spinlock_lock', 'atomic_spinlock_unlock', 'data_size', 'active_info',
         'data_type', 'snprintf', 'data_gc', 'data_ex', 'ex_local', 'ex_update'}
GEN = 'generator_s'


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def gstores(fn, f):
    return {i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), f, GEN)}


def valstores(fn):
    out = set()
    for i in fn.instrs():
        if i.op == 'store':
            a = S(fn.ex(i.ops[1]))
            while a[0] in ('idx', 'fld') and not (a[0] == 'fld' and a[2] == GEN):
                a = a[1]
            if field_of(a, 'values', GEN):
                out.add(i)
    return out


def gaddr(a, f):
    """the generator whose field f (or a part of it) is at address a"""
    while a[0] in ('idx', 'fld'):
        if a[0] == 'fld' and a[3] == f:
            return a[1]
        a = a[1]
    return None


def view(R):
    return R.prog.std(keep=['tasks_schedulering'])


# ------------------------------------------------------------------------------------------------------ put, take
def put(R):
    m = view(R)
    sw = switching(m)
    k = [0, 0]
    for fn in funcs(m):
        rd, vs = gstores(fn, 'is_ready'), valstores(fn)
        gn = {i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'generator', 'events_task_s')}
        up = {i for i in rd if S(fn.ex(i.ops[0])) != ('int', 0)}
        dn = rd - up
        if any(S(fn.ex(i.ops[0])) != ('int', 0) for i in gn):
            dn = set()
        reads = any(i.op == 'load' and gaddr(S(fn.ex(i.ops[0])), 'values') is not None and mentions(S(fn.ex(i.ops[0])), lambda y: y[0] == 'fld' and y[2] == GEN)
                    for i in fn.instrs())
        if up or vs:
            k[0] += 1
            R.cur = 'put'
            R.saw(fn)
            put_one(R, fn, up, vs, sw)
        if dn or reads:
            k[1] += 1
            R.cur = 'take'
            R.saw(fn)
            take_one(R, fn, dn, sw)
    R.cur = 'put'
    R.floor(k[0], 1, 'functions that put a value into a generator')
    R.cur = 'take'
    R.floor(k[1], 1, 'functions that take a value from a generator')


def keepf(y):
    return y[0] == 'fld' and y[3] in ('is_ready', 'context', 'is_generator', 'generator') or y[0] == 'call' and y[1] == 'data_type'


def asked(k, p, f, fresh):
    """what a literal says about field f of a generator: (generator, truth)"""
    if k[0] == 'eq' and k[2] in (('int', 0), ('int', 1)) and k[1][0] == 'ld':
        g = gaddr(k[1][1], f)
        if g is not None and (k[1][2] in fresh):
            return g, (p if k[2] == ('int', 1) else not p)
    return None


def put_one(R, fn, up, vs, sw):
    # x = (fresh reads, empty seen, value stored, marked, others ran since the loop began)
    def step(x, i, T):
        fresh, empty, stored, marked, ran = x
        if i.op == 'load' and gaddr(T.ev(i.ops[0]), 'is_ready') is not None:
            return (fresh | {i.dest}, empty, stored, marked, ran)
        if i in vs:
            g = gaddr(T.ev(i.ops[1]), 'values')
            R.check(nodest(g) in empty, fn, i.where(), 'a value is put in where there may be one that nobody took yet', trace=T.trace())
            R.check(T.ev(i.ops[0])[0] == 'arg', fn, i.where(), 'the value put in is not the one that was given', trace=T.trace())
            R.check(own(g), fn, i.where(), 'a value is put into the generator of another task', trace=T.trace())
            R.check(marked != 1, fn, i.where(), 'a value is put in after it was marked ready', trace=T.trace())
            return (fresh, empty, stored | {nodest(g)}, 1 if marked else 0, ran)
        if i in up:
            g = nodest(gaddr(T.ev(i.ops[1]), 'is_ready'))
            R.check(T.ev(i.ops[0])[0] == 'int', fn, i.where(), 'a value is marked ready only sometimes', trace=T.trace())
            R.check((g in stored or g in empty) and not marked, fn, i.where(), 'a generator is marked ready without a new value', trace=T.trace())
            if g not in stored:
                return (frozenset(), empty, stored, 'early', ran)       # the value follows before any other task runs
            return (frozenset(), frozenset(), stored, 1, ran)
        if name(i) in sw:
            R.check(marked or not stored, fn, i.where(), 'others run while a value is put in and not yet marked ready', trace=T.trace())
            R.check(marked != 'early', fn, i.where(), 'others run after a generator was marked ready and before its value is put in', trace=T.trace())
            return (frozenset(), frozenset(), frozenset() if marked else stored, marked, True)
        return x

    def edge(x, key, pol, i, T):
        a = asked(key, pol, 'is_ready', x[0])
        if a:
            g = nodest(a[0])
            return x[:1] + ((x[1] - {g} if a[1] else x[1] | {g}),) + x[2:]
        return x

    def back(x, h, again, T):
        if again:
            R.check(x[4], fn, fn.blocks[h].ins[-1].where(), 'waiting for room lets nobody run who could make it', trace=T.trace())
        return x[:4] + (False,)

    def ex(x, t, T, rv):
        R.check(x[3] == 1, fn, t.where(), 'a value is yielded that is not put in and marked ready', trace=T.trace())
    Track(fn, step=step, edge=edge, exit=ex, back=back, x0=(frozenset(), frozenset(), frozenset(), 0, False), pure=QUIET, noreturn=('ex_throw',),
          track_mem=lambda a: False, about=lambda q: mentions(q, keepf)).run()


def own(g):
    n = nodest(g)
    return mentions(n, lambda y: y[0] == 'fld' and y[3] == 'generator' and (y[1][0] == 'call' and y[1][1] in ('active_task', 'active_scheduler_task') or
                    y[1][0] == 'load' and y[1][1][0] == 'fld' and y[1][1][1] == THRD and y[1][1][3] in ('active_handle', 'running')))


def take_one(R, fn, dn, sw):
    # x = (fresh reads, known about it: {(field, truth)}, values read, taken, told whose, others ran, known to be something else)
    def step(x, i, T):
        fresh, kn, vals, taken, told, ran = x
        if i.op == 'load':
            a = T.ev(i.ops[0])
            if gaddr(a, 'values') == ('arg', 0):
                return (fresh, kn, vals | {i.dest}, taken, told, ran)
            if gaddr(a, 'is_ready') == ('arg', 0) or gaddr(a, 'context') == ('arg', 0):
                return (fresh | {i.dest}, kn, vals, taken, told, ran)
        if i in dn:
            R.check(gaddr(T.ev(i.ops[1]), 'is_ready') == ('arg', 0), fn, i.where(), 'a value of another generator is dropped', trace=T.trace())
            R.check(('is_ready', True) in kn, fn, i.where(), 'a value is taken that may not be there', trace=T.trace())
            R.check(not taken, fn, i.where(), 'two values are taken at once', trace=T.trace())
            return (frozenset(), frozenset(), vals, taken + 1, told, ran)
        if i.op == 'store' and field_of(T.ev(i.ops[1]), 'gen_id'):
            v = nodest(T.ev(i.ops[0]))
            return (fresh, kn, vals, taken, v == ('load', ('fld', ('arg', 0), None, 'rid')), ran)
        if name(i) in sw:
            R.check(not taken or vals, fn, i.where(), 'others run after a value was marked as taken and before it is read', trace=T.trace())
            return (frozenset(), frozenset(), vals if taken else frozenset(), taken, told, True)
        return x

    def edge(x, key, pol, i, T):
        kn = x[1]
        for f in ('is_ready', 'context'):
            a = asked(key, pol, f, x[0])
            if a and a[0] == ('arg', 0):
                kn = frozenset(y for y in kn if y[0] != f) | {(f, a[1])}
        return x[:1] + (kn,) + x[2:]

    def back(x, h, again, T):
        if again:
            R.check(x[5], fn, fn.blocks[h].ins[-1].where(), 'waiting for a value lets nobody run who could yield one', trace=T.trace())
        return x[:5] + (False,)

    def ex(x, t, T, rv):
        fresh, kn, vals, taken, told, ran = x
        val = rv is not None and rv[0] == 'ld' and gaddr(rv[1], 'values') == ('arg', 0) and rv[2] in vals
        if taken:
            R.check(val, fn, t.where(), 'a value is taken and something else returned', trace=T.trace())
            R.check(told, fn, t.where(), 'the task that takes a value is not told whose it is', trace=T.trace())
            return
        R.check(not (rv is not None and rv[0] == 'ld' and gaddr(rv[1], 'values') is not None), fn, t.where(),
                'a value is returned and stays, to be returned again', trace=T.trace())
        if other(T, fn):
            R.ok(t.where())
            return
        R.check(('is_ready', False) in kn, fn, t.where(), 'no value is returned though one may be ready', trace=T.trace())
        R.check(('context', False) in kn, fn, t.where(), 'no value is returned though the task of the generator may yield more', trace=T.trace())
    Track(fn, step=step, edge=edge, exit=ex, back=back, x0=(frozenset(), frozenset(), frozenset(), 0, False, False), pure=QUIET,
          track_mem=lambda a: a[0] == 'alloca', about=lambda q: mentions(q, keepf)).run()


def other(T, fn):
    """known not to be a generator at all"""
    for k, p in T.F.items():
        if k[0] == 'eq' and not p and k[1][0] == 'call' and k[1][1] == 'data_type' and k[2][0] == 'int' and k[2][1] != 0:
            d = fn.defs.get(k[1][2])
            if d is not None and S(fn.ex(d.ops[0])) == ('arg', fn.args[0]) or d is not None and S(fn.ex(d.ops[0]))[0] == 'arg':
                return True
        if k[0] == 'eq' and k[2] == ('int', 0) and p and k[1] == ('arg', 0):
            return True
    return False


# ------------------------------------------------------------------------------------------------------ end
def end(R):
    R.cur = 'end'
    m = view(R)
    k = 0
    for fn in funcs(m):
        bodies = {i for i in fn.instrs() if i.op == 'call' and i.attr['name'] is None and
                  val_field(S(fn.ex(i.attr['callee'])), 'func', 'events_task_s')}
        cl = {i for i in gstores(fn, 'context')}
        mk = {i for i in cl if S(fn.ex(i.ops[0])) != ('int', 0)}
        if cl - mk and not bodies:
            for i in cl - mk:
                R.bad(fn, i.where(), 'a generator is told that its task has ended where no task ends')
        if not bodies:
            continue
        k += 1
        R.saw(fn)
        end_one(R, fn, bodies, cl - mk)
    R.floor(k, 1, 'functions that run the body of a task')


def end_one(R, fn, bodies, cl):
    # x = (body has returned: task, told)
    def step(x, i, T):
        if i in bodies:
            c = i.attr['callee']
            e = T.ev(c)
            return (nodest(e[1][1]) if e[0] == 'ld' and e[1][0] == 'fld' else ('any',), False)
        if i in cl:
            R.check(x[0] is not None, fn, i.where(), 'a generator is told that its task has ended before it has', trace=T.trace())
            g = nodest(T.ev(i.ops[1])[1])
            R.check(x[0] is None or g == ('load', ('fld', x[0], None, 'generator')), fn, i.where(), 'another generator is told that its task has ended', trace=T.trace())
            return (x[0], True)
        if i.op == 'store' and field_of(T.ev(i.ops[1]), 'halt') and T.ev(i.ops[0]) != ('int', 0):
            over(x, T, i)
        return x

    def over(x, T, i):
        t, told = x
        if t is None:
            return
        no = any(k[0] == 'eq' and k[2] == ('int', 0) and p and (lds(k[1], 'is_generator', t) or lds(k[1], 'generator', t)) for k, p in T.F.items())
        R.check(told or no, fn, i.where(), 'a generator is not told that its task has ended', trace=T.trace())

    def ex(x, t, T, rv):
        over(x, T, t)
    keep = lambda y: y[0] == 'fld' and y[3] in ('is_generator', 'generator')
    Track(fn, step=step, exit=ex, x0=(None, False), pure=QUIET, track_mem=lambda a: a[0] == 'alloca', about=lambda q: mentions(q, keep)).run()


# ------------------------------------------------------------------------------------------------------ made
def made(R):
    R.cur = 'made'
    m = view(R)
    sw = switching(m)
    k = 0
    for fn in funcs(m):
        gn = {i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'generator', 'events_task_s') and S(fn.ex(i.ops[0])) != ('int', 0)}
        ig = {i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'is_generator', 'events_task_s') and S(fn.ex(i.ops[0])) != ('int', 0)}
        cx = {i for i in gstores(fn, 'context') if S(fn.ex(i.ops[0])) != ('int', 0)}
        if not (gn or ig or cx) or fn.name == 'create_task':
            continue
        k += 1
        R.saw(fn)
        made_one(R, fn, gn, ig, sw)
    R.floor(k, 1, 'functions that make a generator')


def made_one(R, fn, gn, ig, sw):
    # x = (tasks pushed {task: id}, generator, task, fields set, marked, collected)
    def step(x, i, T):
        pushed, g, t, fs, ig_, gc = x
        if name(i) == 'create_task':
            th = T.ev(i.ops[3])
            R.check(th == ('int', 0), fn, i.where(), 'the task of a generator may run on another thread than the one that asks it', trace=T.trace())
        if name(i) == 'task_push':
            R.check(T.ev(i.ops[1]) == ('int', 1), fn, i.where(), 'the task of a generator has no result, and so no number', trace=T.trace())
            return (pushed | {(T.ev(i.ops[0]), i.dest)}, g, t, fs, ig_, gc)
        if i in gn:
            return (pushed, T.ev(i.ops[0]), T.ev(i.ops[1])[1], fs, ig_, gc)
        if i in ig:
            return (pushed, g, t, fs, T.ev(i.ops[1])[1], gc)
        if i.op == 'store':
            a = T.ev(i.ops[1])
            if a[0] == 'fld' and fn.ex(i.ops[1])[2] == GEN:
                return (pushed, g, t, fs | {(a[1], a[3], T.ev(i.ops[0]))}, ig_, gc)
        if name(i) == 'data_gc':
            return (pushed, g, t, fs, ig_, gc + (T.ev(i.ops[0]),))
        if name(i) in sw and name(i) != 'task_push':
            R.check(not pushed, fn, i.where(), 'others run before the generator is complete', trace=T.trace())
        return x

    def ex(x, t, T, rv):
        pushed, g, tk, fs, ig_, gc = x
        at = lambda c, s: R.check(c, fn, t.where(), s, trace=T.trace())
        if g is None:
            at(ig_ is None, 'a task is marked as a generator that has none')
            at(not gc, 'something is collected where no generator is made')
            at(rv is not None and T.null(rv) is True, 'a generator is returned that its task does not know')
            return
        val = {f: v for b, f, v in fs if b == g}
        at(ig_ == tk, 'a task has a generator and is not marked so')
        at(val.get('context') == tk, 'a generator does not know its task')
        ids = {d for v, d in pushed if v == tk}
        at(val.get('rid') in {('call', 'task_push', d) for d in ids}, 'a generator does not know the number of its task')
        at(val.get('type', (0,))[0] == 'int' and val['type'][1] > 0, 'a generator is not marked as one')
        at(val.get('is_ready', ('int', 0) if g[:2] == ('call', 'events_calloc') else None) == ('int', 0), 'a new generator claims to hold a value')
        at(gc == (g,), 'a generator is not collected once')
        at(rv == g, 'another generator is returned')
    Track(fn, step=step, exit=ex, x0=(frozenset(), None, None, frozenset(), None, ()), pure=QUIET | {'task_push'}, track_mem=lambda a: a[0] == 'alloca').run()


# ------------------------------------------------------------------------------------------------------ kept
def kept(R):
    R.cur = 'kept'
    m = view(R)
    k = 0
    kind = marks(m)
    for fn in funcs(m):
        for i in fn.instrs():
            if name(i) == 'events_free':
                e = S(fn.ex(i.ops[0]))
                g = any(mentions(S(fn.ex(o)), lambda y: y[0] == 'fld' and y[2] == GEN and S(y[1]) == e) for j in fn.instrs() for o in j.ops if isinstance(o, tuple))
                R.check(not g, fn, i.where(), 'the record of a generator is released while it may be asked for values')
        n = {}
        for i in fn.instrs():
            if name(i) == 'data_type':
                for j in fn.instrs():
                    if j.op == 'icmp' and S(fn.ex(('ssa', i.dest))) in (S(fn.ex(j.ops[0])), S(fn.ex(j.ops[1]))) and kind in (S(fn.ex(j.ops[0])), S(fn.ex(j.ops[1]))):
                        n[i.dest] = S(fn.ex(i.ops[0]))
        if n and any(name(i) == 'events_free' and S(fn.ex(i.ops[0])) in n.values() for i in fn.instrs()):
            k += 1
            R.saw(fn)
            kept_one(R, fn, n, kind)
    R.floor(k, 1, 'places that release what was collected')


def marks(m):
    """the number that marks a generator"""
    out = {S(fn.ex(i.ops[0])) for fn in funcs(m) for i in gstores(fn, 'type')}
    out = {e for e in out if e[0] == 'int' and e[1] > 0}
    if len(out) != 1:
        raise AnalysisBroken('the mark of generators is not a constant')
    return out.pop()


def kept_one(R, fn, n, kind):
    # x = (asked {(call, object)}, freed)
    def step(x, i, T):
        if name(i) == 'data_type':
            return (frozenset(a for a in x[0] if a[0] != i.dest) | {(i.dest, nodest(T.ev(i.ops[0])))}, x[1])
        if name(i) == 'events_free':
            v = nodest(T.ev(i.ops[0]))
            if is_gen(x, T, v):
                R.check(mentions(v, lambda y: y[0] == 'fld' and y[3] == 'gc'), fn, i.where(), 'a generator is released that may be asked for values', trace=T.trace())
                return (x[0], x[1] | {v})
        return x

    def is_gen(x, T, v):
        return any(w == v and T.fact(('eq', ('call', 'data_type', d), kind)) is True for d, w in x[0])

    def over(x, T, i):
        for d, v in x[0]:
            if is_gen(x, T, v) and mentions(v, lambda y: y[0] == 'fld' and y[3] == 'gc'):
                R.check(v in x[1], fn, i.where(), 'a collected generator is not released', trace=T.trace())

    def back(x, h, again, T):
        over(x, T, fn.blocks[h].ins[-1])
        return (frozenset(), frozenset())

    def ex(x, t, T, rv):
        over(x, T, t)
    Track(fn, step=step, back=back, exit=ex, x0=(frozenset(), frozenset()), pure=QUIET, track_mem=lambda a: False,
          about=lambda q: mentions(q, lambda y: y[0] == 'call' and y[1] == 'data_type')).run()


RULES = [start, put, end, made, kept]

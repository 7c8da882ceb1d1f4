"""Helpers shared by the rule modules."""
import re
from framework import *
from flow import *

SKIP = re.compile(r'^(_?rp|_rpmalloc|atomic_|free_list_|get_thread_|set_thread_heap|acquire_lock|release_lock|fence$)')


def funcs(m):
    """every function of the library proper (the bundled allocator is checked separately)"""
    for n in sorted(m.fns):
        if not SKIP.match(n):
            f = m.fns[n]
            f.ensure()
            yield f


def calls(fn, *names):
    return [i for i in fn.instrs() if i.op == 'call' and i.attr['name'] in names]


def callers(m, *names):
    """functions containing a direct call of one of names"""
    for f in funcs(m):
        if calls(f, *names):
            yield f


def name(i):
    return i.attr['name'] if i.op == 'call' else None


def g(n):
    return ('g', n)


def fld(e, s, f):
    return ('fld', e, s, f)


def isload(e, pred=None):
    return e[0] == 'load' and (pred is None or pred(e[1]))


def field_of(a, f, struct=None):
    """a is the address of a field named f (of struct)"""
    return a[0] == 'fld' and a[3] == f and (struct is None or a[2] == struct)


def val_field(e, f, struct=None):
    return e[0] == 'load' and field_of(e[1], f, struct)


def is_lock(i, w, addr=None):
    """+1 / -1 for a spinlock acquire / release of addr (any lock if None), else 0"""
    if i.op != 'call' or not i.attr['name']:
        return 0
    n = i.attr['name']
    k = 1 if n == 'atomic_spinlock_lock' else -1 if n == 'atomic_spinlock_unlock' else 0
    if k and addr is not None and w.val(i.ops[0]) != addr:
        return 0
    return k


SYSLOCK = ('fld', ('g', 'sys_event'), 'sys_events_s', 'lock')


def rmw(i, w):
    """(kind, addr, value) of an atomic read-modify-write"""
    if i.op == 'atomicrmw':
        return i.attr['rmw'], w.val(i.ops[0]), w.val(i.ops[1])
    return None


def store(i, w):
    if i.op == 'store':
        return w.val(i.ops[1]), w.val(i.ops[0])
    return None, None


def enq(i, w):
    """(list, task) when i completes an insertion at the tail of a task list"""
    if i.op != 'store':
        return None
    a = w.val(i.ops[1])
    if not field_of(a, 'tail', 'tasklist_s'):
        return None
    v = w.val(i.ops[0])
    if v == ('int', 0) or val_field(v, 'prev'):
        return None
    return a[1], v


RUNQ = ('fld', ('call', '__thrd', ''), None, 'run_queue')


def thrd_field(a, f):
    return a[0] == 'fld' and a[3] == f and a[1] == ('call', '__thrd', '')


def is_list(e, f):
    """e designates this thread's list f (run_queue / sleep_queue)"""
    if e[0] == 'idx' and e[2] == ('int', 0):
        e = e[1]
    return thrd_field(e, f)


def truth(key, pol, pred):
    """polarity with which a literal says that the value satisfying pred is non-zero (None: not about it)"""
    if key[0] == 'eq' and key[2] == ('int', 0) and pred(key[1]):
        return not pol
    if key[0] == 'eq' and key[2] == ('int', 1) and pred(key[1]):
        return pol
    if key[0] == 'lt' and key[3] == ('int', 1) and pred(key[2]):
        return not pol
    return None


def eqlit(key, pol, pred, const):
    """polarity with which a literal says that the value satisfying pred equals const"""
    if key[0] != 'eq':
        return None
    a, b = key[1], key[2]
    if pred(a) and b == const:
        return pol
    if pred(b) and a == const:
        return pol
    return None


def uses(fn, i, pred):
    """does instruction i touch memory through / hand on a pointer satisfying pred"""
    ops = []
    if i.op == 'load':
        ops = [('a', i.ops[0])]
    elif i.op == 'store':
        ops = [('a', i.ops[1]), ('v', i.ops[0])]
    elif i.op in ('atomicrmw', 'cmpxchg'):
        ops = [('a', i.ops[0])]
    elif i.op == 'call':
        if (i.attr['name'] or '').startswith(('llvm.dbg', 'llvm.lifetime')):
            return False
        ops = [('v', o) for o in i.ops]
    for k, o in ops:
        e = S(fn.ex(o))
        if k == 'a' and e[0] in ('fld', 'idx'):
            while e[0] in ('fld', 'idx'):
                e = e[1]
            if pred(e):
                return True
        elif pred(e):
            return True
    return False


def natural_loop(fn, header):
    """blocks of the natural loop(s) with this header"""
    dom = dominators(fn)
    body = {header}
    st = [getattr(p, 'name', p) for p in fn.blocks[header].pred if header in dom[getattr(p, 'name', p)]]
    while st:
        b = st.pop()
        if b in body:
            continue
        body.add(b)
        st += [getattr(p, 'name', p) for p in fn.blocks[b].pred]
    return body


def plin(m, e):
    """linear form of a pointer or integer expression in bytes"""
    if e[0] == 'idx':
        a, ca = plin(m, e[1])
        try:
            sz = m.types.size_align(e[3])[0] if len(e) > 3 else None
        except Exception:
            sz = None
        if sz is None:
            return {S(e): 1}, 0
        b, cb = lin(e[2])
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + sz * c
            if r[t] == 0:
                del r[t]
        return r, ca + sz * cb
    if e[0] == 'bin' and e[1] in ('add', 'sub'):
        a, ca = plin(m, e[2])
        b, cb = plin(m, e[3])
        s = 1 if e[1] == 'add' else -1
        r = dict(a)
        for t, c in b.items():
            r[t] = r.get(t, 0) + s * c
            if r[t] == 0:
                del r[t]
        return r, ca + s * cb
    return lin(e)


def lsub(a, b):
    r = dict(a[0])
    for t, c in b[0].items():
        r[t] = r.get(t, 0) - c
        if r[t] == 0:
            del r[t]
    return r, a[1] - b[1]


def loop_headers(fn):
    dom = dominators(fn)
    return {b.name for b in fn.order if any(b.name in dom[getattr(p, 'name', p)] for p in b.pred)}


def phi_values(fn, e, stop, limit=64):
    """the joint alternatives of an expression over the non-header phis it mentions: [(expr, {phi: block})]"""
    out = []
    work = [(e, ())]
    while work and len(out) < limit:
        x, ch = work.pop()
        p = next((y[1] for y in walk(x) if y[0] == 'phi' and y[1] not in stop and y[1] not in dict(ch)), None)
        if p is None:
            out.append((x, dict(ch)))
            continue
        for v, b in fn.defs[p].attr['inc']:
            ve = fn.ex(v)
            work.append((sub_expr(x, lambda y: ve if y[0] == 'phi' and y[1] == p else None), ch + ((p, b),)))
    return out


#: task_states (include/async_io.h)
DEAD, NORMAL, RUNNING, SUSPENDED, SLEEPING, FINISH, EVENT = range(7)

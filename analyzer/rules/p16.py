"""P16: dynamic arrays."""
import re
from rules.common import *
from flow import *
from track import Track, Loop, nodest, root

ARRAY, TUPLE, RANGE, RANGE_CHAR = 31, 32, 33, 34
META = 'array_metadata_s'
N, C = ('sym', 'N'), ('sym', 'C')
A = ('arg', 0)
GROW = {'events_realloc': 0}
ALLOC = {'events_malloc': 0, 'events_calloc': None, 'events_realloc': 1}
MOVES = {'data_append', 'data_append_item', 'data_reserve'}
PURE = {'events_malloc', 'is_ptr_usable', 'data_size', 'data_capacity', 'data_lock', 'is_data', 'array', 'arrays', 'data_append', 'thrd_cpu_count',
        'data_queue_size', 'atomic_spinlock_lock', 'atomic_spinlock_unlock'}


def hdr(v):
    """the header of the array v"""
    if v[0] == 'idx' and v[2] == ('int', 1):
        return v[1]
    return None


def meta(b):
    return b[0] == 'fld' and b[3] in ('size', 'capacity', 'type', 'magic', 'lock')


def header(a):
    """is the base of this field the header of array A or memory it moved to"""
    return a[0] == 'idx' and a[1] == A and a[2] == ('int', -1) or a[0] == 'call' and a[1] in GROW


def F(b, f):
    return ('fld', b, None, f)


class Arr:
    """tracking of one array operation: the array given has N elements and room for C"""

    def __init__(self, R, m, fn, ty=ARRAY, null=False, **k):
        self.R, self.m, self.fn = R, m, fn
        init = {'size': N, 'capacity': C, 'type': ('int', ty)}
        args = dict(k.pop('args', {}))
        if null:
            args[0] = 0
        self.T = Track(fn, init=lambda a: init.get(a[3]) if a[0] == 'fld' and header(a[1]) else None, pure=PURE | k.pop('pure', set()), moved=GROW,
                       args=args, mkeep=lambda i, b: meta(b), noreturn={'ex_throw'}, edge=k.pop('edge', self.edge), **k)

    def edge(self, x, key, pol, i, T):
        if key[0] == 'eq' and key[2] == ('int', 0) and pol and (key[1] == A or key[1][0] == 'idx' and root(key[1])[0] == 'call'):
            return None             # the other case, or out of memory
        return x

    def run(self):
        self.T.run()


def head_of(T, v):
    """address of the header of the array a value points to"""
    for q in T.K:
        if q[0] == 'fld' and q[3] in ('size', 'capacity', 'type'):
            b = q[1]
            if hdr(v) == b or b[0] == 'idx' and b[1] == v and b[2] == ('int', -1):
                return b
    return hdr(v)


def roomy(T, c):
    """room for c elements is more than N, given that N <= C held"""
    if c == C:
        return T.holds(('cmp', 'ule', C, N)) is False or T.holds(('cmp', 'eq', C, N)) is False
    t, k = lin(S(c))
    zero = T.fact(('eq', C, ('int', 0)))
    if c[0] == 'bin' and c[1] == 'shl' and c[2] == C and c[3][0] == 'int' and 0 < c[3][1] < 8:
        return zero is False
    if set(t) <= {C} and t.get(C, 0) >= 0:
        if zero:
            return k > 0
        return t.get(C, 0) >= 2 and (k > 0 or zero is False) or t.get(C, 0) >= 1 and k > 0
    if set(t) <= {N} and t.get(N, 0) >= 1:
        return k > 0
    return False


def elem(T, v, n):
    """what is known to be stored as element n of array v"""
    for q, w in T.K.items():
        if q[0] == 'fld' and q[1][0] == 'idx':
            q = q[1]
        if q[0] == 'idx':
            b = base(q)
            if b == (v, lin(S(n))):
                return w


def base(q):
    """(array, index as a linear form) of an element address"""
    t, c = {}, 0
    while q[0] == 'idx':
        if hdr(q) is not None and q[2] == ('int', 1) and q[1][0] == 'call':
            break
        a, b = lin(S(q[2]))
        for k, v in a.items():
            t[k] = t.get(k, 0) + v
        c += b
        q = q[1]
    return q, ({k: v for k, v in t.items() if v}, c)


# ------------------------------------------------------------------------------------------------------ adding
KINDS = {'DATA_DOUBLE': 8, 'DATA_LLONG': 8, 'DATA_MAXSIZE': 8, 'DATA_FUNC': 8, 'DATA_SHORT': 2, 'DATA_BOOL': 1, 'DATA_CHAR': 1, 'DATA_STRING': 8}
SIZES = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'float': 4}


def enums(fn):
    """the enumerators the unit of fn knows"""
    return {mm[1]: int(mm[2]) for v in fn.mod.di.raw.values() if (mm := re.match(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', v))}


def append(R, m):
    R.cur = 'append'
    for nm in ('data_append', 'data_append_item'):
        fn = m.fn(nm)
        R.saw(fn)
        n = [0]

        def ex(x, t, T, rv):
            n[0] += 1
            h = head_of(T, rv)
            R.check(rv == A or rv[0] == 'idx' and rv[1][0] == 'call' and rv[1][1] in GROW and rv[2] == ('int', 1), fn, t.where(),
                    'what is returned is not the array', trace=T.trace())
            sz = T.mem(F(h, 'size')) if h else None
            R.check(sz is not None and lin(S(sz)) == ({N: 1}, 1), fn, t.where(), 'the array does not have one element more', trace=T.trace())
            w = elem(T, rv, N)
            if nm == 'data_append':
                R.check(w == ('arg', 1), fn, t.where(), 'the last element is not the value given', trace=T.trace())
            else:
                R.check(w is not None, fn, t.where(), 'the last element is not set', trace=T.trace())
            c = T.mem(F(h, 'capacity')) if h else None
            c = C if c is None else c
            R.check(roomy(T, c), fn, t.where(), 'an element is written where there is no room for it', trace=T.trace())
            others = [q for q in T.K if q[0] == 'idx' and base(q)[0] == rv and base(q)[1] != ({N: 1}, 0) and q in x]
            R.check(not others, fn, t.where(), 'another element is changed', trace=T.trace())
            if nm == 'data_append_item':
                kinds = {c: f for f, c in enums(fn).items() if f in KINDS}
                told = [kinds[k[2][1]] for k, v in T.F.items() if v and k[0] == 'eq' and k[2][0] == 'int' and k[2][1] in kinds and
                        k[1][0] in ('ld', 'load') and not mentions(k[1], lambda y: y == ('arg', 0))]
                ws = [q[1] for q in x if q[0] == 'width']
                if len(told) < 2 and len(ws) == 1:
                    R.check(any(mentions(k, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[3] == 'fp_offset') for k in T.F) == (told == ['DATA_DOUBLE']), fn, t.where(), 'the value is read as another kind than the one told', trace=T.trace())
                    R.check(ws[0] >= KINDS.get(told[0], 8) if told else ws[0] >= 8, fn, t.where(), 'the value is cut short', trace=T.trace())

        def step(x, i, T):
            if i.op == 'store':
                a = T.ev(i.ops[1])
                b = a
                while b[0] == 'fld':
                    b = b[1]
                if nm == 'data_append_item' and b[0] == 'idx' and (root(b) == A or base(b)[0][0] == 'idx') and not (a[0] == 'fld' and hdr(b)):
                    x = frozenset(q for q in x if q[0] != 'width') | {('width', SIZES.get(str(i.attr.get('ty')), 8))}
                if a[0] == 'idx' and root(a) in (A,) or a[0] == 'idx' and base(a)[0][0] == 'idx':
                    return x | {a}
            return x
        Arr(R, m, fn, step=step, exit=ex, x0=frozenset()).run()
        R.check(n[0] > 0, fn, fn.order[0].ins[0].where(), 'an element is never added')


# ------------------------------------------------------------------------------------------------------ memory
def room(R, m):
    R.cur = 'room'
    k = 0
    size = m.types.size_align('%struct.' + META)[0] if hasattr(m.types, 'size_align') else 96
    for fn in funcs(m):
        caps = [i for i in fn.instrs() if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'capacity', META)]
        if not caps:
            continue
        R.saw(fn)
        k += len(caps)

        # x = {result of an allocation: bytes}
        def step(x, i, T):
            n = name(i)
            if n in ('events_malloc', 'events_realloc'):
                return x | {(('call', n, i.dest), T.ev(i.ops[ALLOC[n]]), T.ev(i.ops[0]) if n == 'events_realloc' else None)}
            if n == 'events_calloc':
                a, b = T.ev(i.ops[0]), T.ev(i.ops[1])
                return x | {(('call', n, i.dest), b if a == ('int', 1) else S(('bin', 'mul', a, b)), None)}
            if i in caps:
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                got = [(b, o) for r, b, o in x if r == a[1]]
                if not got:
                    R.bad(fn, i.where(), 'the room of an array changes without its memory', T.trace())
                    return x
                b, old = got[-1]
                t1, c1 = lin(S(b))
                t2, c2 = lin(S(('bin', 'mul', v, ('int', 8))))
                R.check((t1, c1) == (t2, c2 + size), fn, i.where(), 'the memory of an array is not what its room says', trace=T.trace())
                t, c = lin(S(v))
                signed = any(q < 0 or mentions(y, lambda z: z[0] == 'bin' and z[1] == 'sub') for y, q in t.items())
                if signed or c < 0:
                    low = None          # what is known to be the least value
                    for key, p in T.F.items():
                        if key[0] == 'lt' and key[1] == 's' and key[3][0] == 'int' and not p:
                            t3, c3 = lin(S(key[2]))
                            if t3 == t:
                                low = key[3][1] + c - c3
                        if key[0] == 'lt' and key[1] == 's' and p:       # start < stop
                            t3, c3 = lin(S(('bin', 'sub', key[3], key[2])))
                            if t3 == t:
                                low = 1 + c - c3
                    R.check(low is not None and low >= 0, fn, i.where(), 'the room of an array may be negative', trace=T.trace())
            return x
        Track(fn, step=step, x0=frozenset(), pure=PURE).run()
    R.floor(k, 3, 'places that set the room of an array')



# ------------------------------------------------------------------------------------------------------ removing
def shifted(T, i, at):
    """a block move that closes the gap at index at of array A with N elements"""
    d, s, n = (T.ev(o) for o in i.ops[:3])
    want = lin(S(at))
    return base(d) == (A, want) and base(s) == (A, (want[0], want[1] + 1)) and \
        lin(S(n)) == lin(S(('bin', 'mul', ('bin', 'sub', ('bin', 'sub', N, ('int', 1)), at), ('int', 8))))


def closing(fn):
    """loops that move every element down by one: {header: (first index, bound)}"""
    out = {}
    for h in loop_headers(fn):
        L = Loop(fn, h)
        st = [i for b in L.body for i in fn.blocks[b].ins if i.op == 'store']
        if len(st) != 1 or any(i.op == 'call' and not (i.attr['name'] or '').startswith('llvm.dbg') for b in L.body for i in fn.blocks[b].ins):
            continue
        out[h] = L
    return out


def empty(m, g):
    """the constant all of whose bytes are nought: the empty value, or what the compiler made of a copy of it"""
    if g == ('g', 'data_values_empty'):
        return True
    c = m.globals.get(g[1], '') if g[0] == 'g' and g[1].startswith('__const.') else ''
    c = c.split(', align')[0]
    return ' constant ' in c and not re.search(r'(?<![%\w.])i\d+ (?!0\b|undef)|c"|@', c.split(' constant ', 1)[1])


def removing(R, m):
    R.cur = 'remove'
    m = R.prog.std(extra=['data_remove'])
    for nm in ('data_remove', 'data_pop', 'data_shift'):
        fn = m.fn(nm)
        R.saw(fn)
        at = {'data_remove': ('arg', 1), 'data_pop': S(('bin', 'sub', N, ('int', 1))), 'data_shift': ('int', 0)}[nm]
        n = [0]
        for inside in (True, False):
            def edge(x, key, pol, i, T):
                if key[0] == 'eq' and key[2] == ('int', 0) and pol and key[1] == A:
                    return None
                k = None
                if nm == 'data_remove':
                    if key == ('lt', 'u', ('arg', 1), N):
                        k = pol
                elif key == ('eq', N, ('int', 0)):
                    k = not pol
                elif key[0] == 'lt' and key[2:] == (('int', 0), N):
                    k = pol
                elif nm == 'data_pop' and key[0] == 'lt' and key[3] == N and lin(S(key[2])) == ({N: 1}, -1) or key[0] == 'lt' and key[2] == ('int', 0) and key[3] == N:
                    k = pol
                if k is not None and k != inside:
                    return None
                return x

            # x = (moved, values read before that)
            def step(x, i, T):
                c = name(i) or ''
                if c.startswith(('llvm.memmove', 'llvm.memcpy')):
                    if base(T.ev(i.ops[0]))[0] != A:
                        return x
                    R.check(c.startswith('llvm.memmove'), fn, i.where(), 'elements that overlap are copied as if they did not', trace=T.trace())
                    R.check(not x[0] and shifted(T, i, at), fn, i.where(), 'closing the gap does not move each later element down by one', trace=T.trace())
                    R.check(inside, fn, i.where(), 'elements move although none is removed', trace=T.trace())
                    return (True, x[1])
                if i.op == 'load' and not x[0]:
                    a = T.ev(i.ops[0])
                    if a[0] == 'idx' and base(a)[0] == A or a == A:
                        return (x[0], x[1] | {i.dest})
                return x

            def ex(x, t, T, rv):
                n[0] += 1
                h = ('idx', A, ('int', -1))
                sz = next((v for q, v in T.K.items() if q[0] == 'fld' and q[3] == 'size'), None)
                if not inside:
                    R.check(sz is None or sz == N, fn, t.where(), 'the array is changed although nothing is removed', trace=T.trace())
                    R.check(not x[0], fn, t.where(), 'the array is changed although nothing is removed', trace=T.trace())
                    if nm != 'data_remove':
                        R.check(rv is not None and (rv == ('int', 0) or empty(m, root(rv[1] if rv[0] == 'ld' else rv))), fn, t.where(),
                                'what an empty array gives is not the empty value', trace=T.trace())
                    return
                R.check(sz is not None and lin(S(sz)) == ({N: 1}, -1), fn, t.where(), 'the array does not have one element less', trace=T.trace())
                R.check(x[0] or nm == 'data_pop', fn, t.where(), 'the elements behind the one removed do not move down', trace=T.trace())
                if nm != 'data_remove':
                    R.check(rv[0] == 'ld' and base(rv[1])[0] == A and base(rv[1])[1] == lin(S(at)), fn, t.where(), 'what is given is not the %s element' %
                            ('last' if nm == 'data_pop' else 'first'), trace=T.trace())
                    R.check(rv[0] != 'ld' or rv[2] in x[1] or nm == 'data_pop', fn, t.where(), 'the element is read after the others have moved', trace=T.trace())
            Arr(R, m, fn, edge=edge, step=step, exit=ex, x0=(False, frozenset()), args={}).run()
        R.check(n[0] > 0, fn, fn.order[0].ins[0].where(), 'an element is never removed')


# ------------------------------------------------------------------------------------------------------ tuples
def tuples(R, m):
    R.cur = 'tuple'
    m = R.prog.std(extra=['data_remove'])
    for nm in ('data_append', 'data_append_item', 'data_remove', 'data_pop', 'data_shift', 'data_reset'):
        fn = m.fn(nm)
        R.saw(fn)
        for ty in (TUPLE, ARRAY, RANGE, RANGE_CHAR):
            thrown = [0]

            def step(x, i, T):
                if name(i) == 'ex_throw':
                    thrown[0] += 1
                    R.check(ty == TUPLE, fn, i.where(), 'changing an array that is no tuple is refused', trace=T.trace())
                    return None
                if ty == TUPLE and (i.op == 'store' and root(T.ev(i.ops[1])) in (A,) or name(i) in GROW or
                                    (name(i) or '').startswith('llvm.memmove')):
                    R.bad(fn, i.where(), 'a tuple is changed', T.trace())
                return x

            def ex(x, t, T, rv):
                R.check(ty != TUPLE, fn, t.where(), 'changing a tuple is not refused', trace=T.trace())
            Arr(R, m, fn, ty=ty, step=step, exit=ex, x0='').run()
            if ty == TUPLE:
                R.check(thrown[0], fn, fn.order[0].ins[0].where(), 'changing a tuple is not refused')


# ------------------------------------------------------------------------------------------------------ the rest of the life
def life(R, m):
    R.cur = 'life'
    fn = m.fn('data_delete')
    R.saw(fn)
    n = [0]

    # x = (released)
    def step(x, i, T):
        if name(i) == 'events_free':
            a = T.ev(i.ops[0])
            n[0] += 1
            R.check(a[0] == 'idx' and a[1] == A and a[2] == ('int', -1), fn, i.where(), 'what is released is not the memory of the array', trace=T.trace())
            R.check(not x, fn, i.where(), 'an array is released twice', trace=T.trace())
            for f in ('type', 'magic'):
                v = T.mem(F(a, f))
                R.check(v is not None and v[0] == 'int' and not (f == 'type' and v[1] in (ARRAY, TUPLE, RANGE, RANGE_CHAR)), fn, i.where(),
                        'an array is still taken for one after its release', trace=T.trace())
            return True
        if x and i.op in ('load', 'store'):
            a = T.ev(i.ops[0 if i.op == 'load' else 1])
            R.check(root(a) != A, fn, i.where(), 'an array is used after its release', trace=T.trace())
        return x

    def ex(x, t, T, rv):
        ok = any(k[0] == 'eq' and k[2] == ('int', 0) and p and k[1][0] == 'call' and k[1][1] == 'is_ptr_usable' for k, p in T.F.items())
        R.check(x or ok, fn, t.where(), 'the array is not released', trace=T.trace())
    Arr(R, m, fn, step=step, exit=ex, x0=False).run()
    R.floor(n[0], 1, 'releases of an array')

    fn = m.fn('data_reset')
    R.saw(fn)

    def ex(x, t, T, rv):
        sz = next((v for q, v in T.K.items() if q[0] == 'fld' and q[3] == 'size'), None)
        R.check(sz == ('int', 0), fn, t.where(), 'the array is not empty', trace=T.trace())
        R.check(rv == A, fn, t.where(), 'what is returned is not the array', trace=T.trace())
    Arr(R, m, fn, exit=ex, x0='').run()

    fn = m.fn('data_tuple')
    R.saw(fn)

    def ex(x, t, T, rv):
        sz = next((v for q, v in T.K.items() if q[0] == 'fld' and q[3] == 'size'), None)
        ty = next((v for q, v in T.K.items() if q[0] == 'fld' and q[3] == 'type'), None)
        R.check(sz in (None, N) and rv == A, fn, t.where(), 'the tuple does not have the elements of the array', trace=T.trace())
        R.check(ty == ('int', TUPLE), fn, t.where(), 'what is returned is no tuple', trace=T.trace())
    Arr(R, m, fn, exit=ex, x0='').run()

    fn = m.fn('data_reserve')
    R.saw(fn)

    def ex(x, t, T, rv):
        h = head_of(T, rv)
        sz = T.mem(F(h, 'size')) if h else None
        c = T.mem(F(h, 'capacity')) if h else None
        c = C if c is None else c
        zero = T.fact(('eq', ('arg', 1), ('int', 0)))
        R.check(sz in (None, N), fn, t.where(), 'the elements change in number', trace=T.trace())
        R.check(rv == A or rv[0] == 'idx' and rv[1][0] == 'call' and rv[1][1] in GROW and rv[2] == ('int', 1), fn, t.where(), 'what is returned is not the array', trace=T.trace())
        R.check(zero is True or c == ('arg', 1) or c == C and T.holds(('cmp', 'ult', C, ('arg', 1))) is False, fn, t.where(),
                'there is not as much room as asked for', trace=T.trace())
        if c != C:
            R.check(T.holds(('cmp', 'ult', C, c)) is True, fn, t.where(), 'room is taken away', trace=T.trace())
    Arr(R, m, fn, exit=ex, x0='').run()

    fn = m.fn('is_data')
    R.saw(fn)
    magic = {S(f.ex(i.ops[0])) for f in funcs(m) for i in f.instrs() if i.op == 'store' and field_of(S(f.ex(i.ops[1])), 'magic', META)} - {('int', 0)}
    R.check(len(magic) == 1, fn, fn.order[0].ins[0].where(), 'arrays are marked in different ways')
    for ty in (ARRAY, TUPLE, RANGE, RANGE_CHAR, -1, 30, 34 + 1):
        for good in (True, False):
            for usable in (True, False):
                init = {'type': ('int', ty), 'magic': next(iter(magic)) if good else ('int', 12345)}

                def edge(x, key, pol, i, T):
                    if key == ('eq', A, ('int', 0)) and pol:
                        return None
                    if key[0] == 'eq' and key[1][0] == 'call' and key[1][1] == 'is_ptr_usable' and key[2] == ('int', 0) and pol == usable:
                        return None
                    return x

                def ex(x, t, T, rv):
                    want = usable and good and ty in (ARRAY, TUPLE, RANGE, RANGE_CHAR)
                    R.check(rv == ('int', int(want)) or rv == ('int', -1) and want, fn, t.where(),
                            'an array is not taken for one' if want else 'what is no array is taken for one', trace=T.trace())

                def step(x, i, T):
                    if i.op == 'load' and not usable:
                        R.check(root(T.ev(i.ops[0])) != A, fn, i.where(), 'memory is read that may not exist', trace=T.trace())
                    return x
                Track(fn, init=lambda a: init.get(a[3]) if a[0] == 'fld' else None, pure=PURE, edge=edge, exit=ex, step=step, x0='').run()


# ------------------------------------------------------------------------------------------------------ making them
def fill(R, m):
    """every loop that adds to an array in each round"""
    R.cur = 'fill'
    for nm, bound, src in (('arrays', ('arg', 0), 'va'), ('data_ex', ('arg', 0), 'va'), ('data_copy', ('call', 'data_size'), 'arg1'),
                           ('range', ('arg', 1), 'iv'), ('rangeing', ('arg', 1), 'iv'), ('range_char', ('call', 'strlen'), 'bytes')):
        fn = m.fn(nm)
        R.saw(fn)
        hs = [h for h in loop_headers(fn) if any(name(i) == 'data_append' for b in natural_loop(fn, h) for i in fn.blocks[b].ins)]
        R.check(len(hs) == 1, fn, fn.order[0].ins[0].where(), 'the elements are not added in one loop')
        first = ('arg', 0) if src == 'iv' else ('int', 0)
        for h in hs:
            L = Loop(fn, h)
            if nm == 'rangeing':
                iv = {i.dest: 0 for i in fn.blocks[h].ins if i.op == 'phi' and all(
                    lin(S(fn.ex(v))) == (({('phi', i.dest): 1, ('arg', 2): 1}, 0) if p in L.body else ({first: 1}, 0)) for v, p in i.attr['inc'])}
            else:
                iv = {p: v for p, v in L.iv.items() if v[1] == 1 and S(v[0]) == first}
            R.check(iv, fn, fn.blocks[h].ins[-1].where(), 'the elements are not counted from the first %s' % ('by the step' if nm == 'rangeing' else 'by one'))
            # leaving the loop: only when the count is reached
            for br, pol, tgt in L.exits():
                k, p = literal(S(fn.ex(br.ops[0])), pol)
                e = [y for y in walk(k) if isinstance(y, tuple) and y[0] == 'phi' and y[1] in iv] if not isinstance(k, bool) else []
                b = k[3] if not isinstance(k, bool) and k[0] == 'lt' else k[2] if not isinstance(k, bool) else None
                good = bool(e) and not isinstance(k, bool) and (k[0] == 'lt' and p is False and k[2] == e[0] or
                                                              k[0] == 'eq' and p and e[0] in k[1:]) and (
                    any(y[:len(bound)] == bound for y in k[1:] if isinstance(y, tuple)))
                R.check(good, fn, br.where(), 'adding stops elsewhere than after the last element')

            # x = adds in this round
            def step(x, i, T):
                if name(i) == 'data_append' and i.blk.name in L.body:
                    a, v = T.ev(i.ops[0]), T.ev(i.ops[1])
                    R.check(x[0] == 0, fn, i.where(), 'an element is added twice', trace=T.trace())
                    if src == 'arg1':
                        ok = v[0] == 'ld' and base(v[1])[0] == ('arg', 1) and any(base(v[1])[1] == ({('phi', p): 1}, 0) for p in iv)
                    elif src == 'iv':
                        e = S(fn.ex(i.ops[1]))
                        while e[0] in ('sext', 'zext', 'cast'):
                            e = e[-1]
                        ok = e[0] == 'phi' and e[1] in iv
                    elif src == 'bytes':
                        e = S(fn.ex(i.ops[1]))
                        while e[0] in ('sext', 'zext', 'cast'):
                            e = e[-1]
                        e = e[1] if e[0] == 'load' else e
                        ok = e[0] == 'phi' and L.iv.get(e[1], (None, 0))[1] == 1 and S(L.iv[e[1]][0]) == ('arg', 0) or \
                            e[0] == 'idx' and e[1] == ('arg', 0) and e[2][0] == 'phi' and e[2][1] in iv
                    else:
                        ok = v[0] == 'ld' and mentions(nodest(fn.ex(i.ops[1])), lambda y: y[0] == 'phi')
                    R.check(ok, fn, i.where(), 'the element added is not the next one', trace=T.trace())
                    d = S(fn.ex(i.ops[0]))
                    R.check(d[0] == 'phi', fn, i.where(), 'the element is not added to what the others were added to', trace=T.trace())
                    R.check(x[1] is None, fn, i.where(), 'an element is added to what may have become a tuple', trace=T.trace())
                    return (1,) + x[1:]
                if i.op == 'store' and field_of(S(fn.ex(i.ops[1])), 'type', META):
                    v = T.ev(i.ops[0])
                    if v[0] != 'int' or v[1] == TUPLE:
                        return x[:1] + (i,)
                return x

            def back(x, hh, again, T):
                if hh != h:
                    return x
                if again:
                    R.check(x[0] == 1, fn, fn.blocks[h].ins[-1].where(), 'an element is passed over', trace=T.trace())
                return (0,) + x[1:]
            Track(fn, step=step, back=back, x0=(0, None), pure=PURE).run()
            for i in fn.blocks[h].ins:
                if i.op == 'phi' and i.ty == 'ptr' and any(name(j) == 'data_append' and S(fn.ex(j.ops[0])) == ('phi', i.dest) for b in L.body for j in fn.blocks[b].ins):
                    for v, b in i.attr['inc']:
                        if b in L.body:
                            e = S(fn.ex(v))
                            ok = e == ('phi', i.dest) or e[0] == 'call' and e[1] == 'data_append' or e[0] == 'phi' and all(
                                S(fn.ex(z)) == ('phi', i.dest) or S(fn.ex(z))[:2] == ('call', 'data_append') for z, _ in fn.defs[e[1]].attr['inc'])
                            R.check(ok, fn, i.where(), 'the array goes on as another one')


# ------------------------------------------------------------------------------------------------------ those that use them
def keep(R, m):
    R.cur = 'keep'
    k = 0
    for fn in funcs(m):
        cs = [i for i in fn.instrs() if name(i) in MOVES]
        if not cs or fn.name in MOVES:
            continue
        R.saw(fn)
        pos = {}
        for b in fn.order:
            for j, i in enumerate(b.ins):
                pos[i] = (b, j)
        for c in cs:
            k += 1
            one(R, fn, c, pos)
    R.floor(k, 20, 'places that may move an array')


def shared(fn, v):
    """the array several threads add to: it is put where they find it with room for all they can add"""
    return any(i.op == 'store' and i.ops[0] == v and field_of(S(fn.ex(i.ops[1])), 'results') for i in fn.instrs())


def reserved(R, m):
    R.cur = 'reserve'
    k = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op != 'store':
                continue
            a, v = S(fn.ex(i.ops[1])), S(fn.ex(i.ops[0]))
            if not field_of(a, 'results', 'waitgroup_s') and not (field_of(a, 'results') and v[0] == 'call' and v[1] in ('array', 'arrays', 'data_reserve')) or v == ('int', 0):
                continue
            k += 1
            R.saw(fn)
            good = v[0] == 'call' and v[1] == 'data_reserve'
            if good:
                d = fn.defs[v[2]]
                t, c = lin(S(fn.ex(d.ops[1])))
                q = [y for y in t if y[0] == 'call' and y[1] == 'data_size' and t[y] >= 1]
                good = len(t) == 1 and q and c >= 0
                if good:
                    g = S(fn.ex(fn.defs[q[0][2]].ops[0]))
                    good = g[0] == 'load' and field_of(g[1], 'group') and nodest(g[1][1]) == nodest(a[1])
            R.check(good, fn, i.where(), 'workers add to an array that has no room for all the results and moves under them')
    R.floor(k, 1, 'arrays workers share')


def derived(fn, v):
    """names of addresses inside what the value points to"""
    der, grew = {v}, True
    while grew:
        grew = False
        for i in fn.instrs():
            if i.op in ('getelementptr', 'bitcast') and i.dest not in der and i.ops[0][0] == 'ssa' and i.ops[0][1] in der:
                der.add(i.dest)
                grew = True
    return der


def one(R, fn, c, pos):
    v = c.ops[0]
    if v[0] != 'ssa':
        return R.ok('%s: %s' % (fn.name, c.where()))
    e = S(fn.ex(v))
    if e[0] == 'load' and field_of(e[1], 'results') and name(c) != 'data_reserve' or e[0] == 'call' and e[1] == 'data_reserve' and shared(fn, v):
        return R.ok('%s: %s (all the room was made before)' % (fn.name, c.where()))
    L = nodest(e[1]) if e[0] == 'load' else None
    if e[0] == 'load' and root(e[1])[0] == 'alloca':
        L = nodest(e[1])
    der = derived(fn, v[1])
    d = fn.defs.get(v[1])
    bad = []
    # forward over the graph: state = (kept place up to date)
    start = (pos[c][0].name, pos[c][1] + 1, L is None)
    work, seen = [start], set()
    while work and not bad:
        bn, j, ok = work.pop()
        if (bn, j, ok) in seen:
            continue
        seen.add((bn, j, ok))
        blk = fn.blocks[bn]
        stop = False
        for i in blk.ins[j:]:
            if i is d or i is c and not ok:
                stop = i is d
                if i is c:
                    bad.append((i, 'an array is added to where it was before it moved'))
                break
            if i is c:
                stop = True
                break
            ops = [o for o in i.ops if isinstance(o, tuple) and o[0] == 'ssa'] if i.op != 'phi' else []
            n = name(i) or ''
            if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
                continue
            if any(o[1] in der for o in ops) and i.op not in ('getelementptr', 'bitcast', 'icmp'):
                bad.append((i, 'an array is used where it was before it moved'))
                break
            if not ok:
                if i.op == 'store' and nodest(S(fn.ex(i.ops[1]))) == L:
                    x = i.ops[0]
                    if x[0] == 'ssa' and x[1] == c.dest or S(fn.ex(x)) == S(fn.ex(('ssa', c.dest))):
                        ok = True
                        continue
                if i.op == 'load' and nodest(S(fn.ex(i.ops[0]))) == L or i.op == 'ret' or i.op == 'call' and n not in PURE and not n.startswith('llvm.'):
                    bad.append((i, 'the array may have moved and the place it is kept in still has the old one'))
                    break
        if bad or stop:
            continue
        for t in blk.succ:
            for i in fn.blocks[t].ins:
                if i.op != 'phi':
                    break
                for o, p in i.attr['inc']:
                    if p == bn and o[0] == 'ssa' and o[1] in der and i.dest != v[1] and used(fn, i.dest, set()):
                        bad.append((blk.term, 'an array goes on where it was before it moved'))
            if d is not None and d.op == 'phi' and d.blk.name == t:
                continue
            work.append((t, 0, ok))
    if v[1] in fn.args and not bad:
        rets = [S(fn.ex(i.ops[0])) for b in fn.order for i in b.ins if i.op == 'ret' and i.ops]
        if not any(mentions(r, lambda y: y[0] == 'phi' or y == ('call', name(c), c.dest)) for r in rets):
            bad.append((c, 'the array may have moved and whoever keeps it is not told'))
    if bad:
        i, why = bad[0]
        R.bad(fn, i.where(), why)
    else:
        R.ok('%s: %s' % (fn.name, c.where()))


def used(fn, d, seen):
    """is a value used other than to be compared"""
    if d in seen:
        return False
    seen.add(d)
    for i in fn.instrs():
        if i.op == 'phi':
            if any(o[0] == 'ssa' and o[1] == d for o, _ in i.attr['inc']) and used(fn, i.dest, seen):
                return True
        elif any(isinstance(o, tuple) and o[0] == 'ssa' and o[1] == d for o in i.ops) and not (name(i) or '').startswith('llvm.dbg'):
            return True
    return False


def arrayops(R):
    m = R.prog.std()
    for a, b in TEXT:
        R.rule(a, b)
    append(R, m)
    room(R, m)
    removing(R, m)
    tuples(R, m)
    life(R, m)
    fill(R, m)
    keep(R, m)
    reserved(R, m)


TEXT = [
    ('append', 'adding an element writes the value given behind the last one, where there is room, counts it and returns the array, moved or not'),
    ('remove', 'removing an element leaves the others in order and counts it; pop gives the last, shift the first, of an empty array the empty value'),
    ('tuple', 'a tuple is never changed: trying throws before anything is'),
    ('life', 'an array is released once and taken for none afterwards; what is taken for an array is one; emptying, reserving and making a tuple keep what they must'),
    ('fill', 'making an array of values, or a copy, adds each of them once, in order'),
    ('keep', 'whoever adds to an array goes on with what comes back, and puts it where the array is kept before anything else can look there'),
    ('reserve', 'an array several workers add results to has room for all of them before they find it'),
    ('room', 'the room an array says it has is what its memory holds'),
]
RULES = [arrayops]

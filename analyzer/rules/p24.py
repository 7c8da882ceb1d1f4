"""P24: switching tasks keeps what each task is made of."""
from rules.common import *
from rules.p09 import swaps
from track import Track, nodest, root

THRD = ('call', '__thrd', '')
ACT = ('fld', THRD, None, 'active_handle')
CURH = ('fld', THRD, None, 'current_handle')
MAINH = ('fld', THRD, None, 'main_handle')
REG = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % k for k in range(8, 16)]
SAVED = ['rbx', 'rbp', 'r12', 'r13', 'r14', 'r15']
NOP = {b'\x90', b'\xf3\x0f\x1e\xfa', b'\x66\x90', b'\x0f\x1f\x00', b'\x0f\x1f\x40\x00'}


# ------------------------------------------------------------------------------------------------------ machine code
# a value is (term, offset); a term is ('init', register) or ('mem', term, offset)
def decode(code):
    """what the swap routine does, from its bytes: (registers, writes, reads, jump target); straight-line code only"""
    reg = {r: (('init', r), 0) for r in REG}
    mem, reads = {}, []
    k = 0

    def stop(what):
        raise AnalysisBroken('swap: %s at byte %d of the swap routine (%s)' % (what, k, ' '.join('%02x' % b for b in code[k:k + 8])))

    def ld(a):
        if a not in mem:
            reads.append(a)
        return mem.get(a, (('mem', a[0], a[1]), 0))
    while True:
        if k >= len(code):
            stop('no jump')
        for n in (4, 3, 2, 1):
            if bytes(code[k:k + n]) in NOP:
                k += n
                break
        else:
            p, rex = k, 0
            if code[p] & 0xf0 == 0x40:
                rex = code[p]
                p += 1
            op = code[p]
            p += 1
            R, X, B, W = (rex >> 2 & 1) * 8, (rex >> 1 & 1) * 8, (rex & 1) * 8, rex >> 3 & 1

            def rm(p, need=True):
                b = code[p]
                md, r, m = b >> 6, (b >> 3 & 7) + R, b & 7
                p += 1
                if md == 3:
                    return p, r, m + B, None
                if m == 4:
                    sib = code[p]
                    p += 1
                    if (sib >> 3 & 7) + X != 4:
                        stop('an indexed operand')
                    base = (sib & 7) + B
                    if md == 0 and sib & 7 == 5:
                        stop('an absolute operand')
                else:
                    base = m + B
                    if md == 0 and m == 5:
                        stop('a relative operand')
                d = 0
                if md == 1:
                    d = int.from_bytes(code[p:p + 1], 'little', signed=True)
                    p += 1
                elif md == 2:
                    d = int.from_bytes(code[p:p + 4], 'little', signed=True)
                    p += 4
                t, o = reg[REG[base]]
                return p, r, None, (t, o + d)
            if op in (0x89, 0x8b) and W:
                p, r, q, a = rm(p)
                if op == 0x89:
                    if a is None:
                        reg[REG[q]] = reg[REG[r]]
                    else:
                        mem[a] = reg[REG[r]]
                else:
                    reg[REG[r]] = reg[REG[q]] if a is None else ld(a)
            elif op == 0x8d and W:
                p, r, q, a = rm(p)
                if a is None:
                    stop('an unknown instruction')
                reg[REG[r]] = a
            elif 0x50 <= op <= 0x57:
                t, o = reg['rsp']
                v = reg[REG[op - 0x50 + B]]
                reg['rsp'] = (t, o - 8)
                mem[(t, o - 8)] = v
            elif 0x58 <= op <= 0x5f:
                t, o = reg['rsp']
                v = ld((t, o))
                reg['rsp'] = (t, o + 8)
                reg[REG[op - 0x58 + B]] = v
            elif op in (0x83, 0x81) and W:
                p, r, q, a = rm(p)
                n = 1 if op == 0x83 else 4
                c = int.from_bytes(code[p:p + n], 'little', signed=True)
                p += n
                if a is not None or r & 7 not in (0, 5):
                    stop('an unknown instruction')
                t, o = reg[REG[q]]
                reg[REG[q]] = (t, o + (c if r & 7 == 0 else -c))
            elif op == 0xff:
                p, r, q, a = rm(p)
                if r & 7 != 4:
                    stop('an unknown instruction')
                return reg, mem, reads, (reg[REG[q]] if a is None else ld(a))
            elif op == 0xc3:
                t, o = reg['rsp']
                v = ld((t, o))
                reg['rsp'] = (t, o + 8)
                return reg, mem, reads, v
            else:
                stop('an unknown instruction')
            k = p
            continue


TO, FROM, SP = ('init', 'rdi'), ('init', 'rsi'), ('init', 'rsp')


def resumed(v, mem):
    """the value v, computed from what a task left behind when it was itself switched away from"""
    t, o = v
    if t[0] != 'mem':
        return v
    b, bo = resumed((t[1], t[2]), mem)
    a = (FROM, bo) if b == TO else (b, bo)
    if a in mem:
        w, wo = mem[a]
        return w, wo + o
    return ('mem',) + a, o


def view(R):
    return R.prog.std(extra=['active_task'], keep=['task_scheduler_switch'])


def routines(m):
    """what the global the switch calls through is ever set to"""
    out = {}
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op == 'store' and S(fn.ex(i.ops[1])) == g('coro_swap'):
                out.setdefault(S(fn.ex(i.ops[0])), []).append((fn, i))
    return out


def code_of(R):
    if getattr(R, 'p24', None) is None:
        m = R.prog.std()
        rs = routines(m)
        if not rs:
            raise AnalysisBroken('swap: nothing sets the switch routine')
        names = [e[1] for e in rs if e[0] == 'g' and R.prog.base().gbytes(e[1])]
        if len(names) != len(rs) or len(names) != 1:
            raise AnalysisBroken('swap: the switch routine is not one known array of machine code')
        R.p24 = (names[0],) + decode(R.prog.base().gbytes(names[0]))
    return R.p24


def swap(R):
    R.cur = 'swap'
    nm, reg, mem, reads, target = code_of(R)
    R.saw(nm)
    where = 'src/asm.c (machine code of %s)' % nm
    for r in SAVED:
        R.check(resumed(reg[r], mem) == (('init', r), 0), nm, where, 'a task that is resumed does not find its %s again' % r, site='%s: %s' % (nm, r))
    R.check(resumed(reg['rsp'], mem) == (SP, 8), nm, where, 'a task that is resumed does not return onto its own stack', site=nm + ': rsp')
    R.check(resumed(target, mem) == (('mem', SP, 0), 0), nm, where, 'a task that is resumed does not go on where it stopped', site=nm + ': target')
    lim = context(R)
    for (t, o), v in mem.items():
        if t == FROM:
            R.check(0 <= o and o + 8 <= lim, nm, where, 'a register is saved outside of the part of the task record meant for it')
        elif t == SP:
            R.check(o < 0, nm, where, 'the stack of the task that is left is written above its top')
        else:
            R.bad(nm, where, 'memory of another task is written while switching')
    for t, o in reads:
        if t == TO:
            R.check(0 <= o and o + 8 <= lim, nm, where, 'a register is restored from outside of the part of the task record meant for it')


def record(R):
    return next(t for t in ('%struct.events_task_s',) if t[1:] in R.prog.base().types.structs)


def context(R):
    """size of the part of the record that belongs to the switch routine: what stands before the first field used by name"""
    T = R.prog.base().types
    return T.layout(record(R))[0][1]


# ------------------------------------------------------------------------------------------------------- a new task
def down(m, e):
    """an address as (linear form, constant, slack): value = form + constant - d for some 0 <= d <= slack"""
    terms, c = plin(m, e)
    out, slack = {}, 0
    for t, k in terms.items():
        if t[0] == 'bin' and t[1] == 'and' and k == 1 and t[3][0] == 'int' and t[3][1] < 0 and (-t[3][1]) & (-t[3][1] - 1) == 0:
            f, fc, fs = down(m, t[2])
            for u, n in f.items():
                out[u] = out.get(u, 0) + n
            c += fc
            slack += fs - t[3][1] - 1
        else:
            out[t] = out.get(t, 0) + k
    return {t: k for t, k in out.items() if k}, c, slack


def residue(m, e, n, base=()):
    """remainder of an address modulo n, when known; base: values known to be multiples of n"""
    terms, c = plin(m, e)
    for t, k in terms.items():
        if k % n == 0 or t in base or t[0] == 'bin' and t[1] == 'and' and t[3][0] == 'int' and t[3][1] < 0 and t[3][1] % n == 0:
            continue
        return None
    return c % n


ALLOC = {'events_calloc': 2, 'calloc': 2, 'rpcalloc': 2, 'events_malloc': 1, 'malloc': 1, 'rpmalloc': 1}
ENTRY = ('task_awaitable', 'task_func')


def frame(R):
    nm, reg, mem, reads, target = code_of(R)
    m = R.prog.std(extra=['active_task', 'task_derive'])
    T = m.types
    area = T.size_align(record(R))[0]
    tt, to = target[0], reg['rsp']
    k = 0
    for fn in funcs(m):
        if not any(i.op == 'store' and i.ops[0] in [('g', e) for e in ENTRY] for i in fn.instrs()) or not calls(fn, *ALLOC):
            continue
        R.saw(fn)
        k += 1
        argf = {('arg', a) for a in range(len(fn.args))}

        def step(x, i, t):
            st, al = x
            if name(i) in ALLOC:
                v = tuple(t.ev(o) for o in i.ops)
                return st, (v[0] if ALLOC[name(i)] == 1 else ('bin', 'mul', v[0], v[1]) if v[0] != ('int', 1) else v[1])
            if i.op == 'store':
                a, v = t.ev(i.ops[1]), t.ev(i.ops[0])
                if a[0] == 'fld' and a[3] in ('stack_base', 'stack_size') or a[0] != 'fld' and a[0] != 'alloca' and a[0] != 'g':
                    d = dict(st)
                    d[a[3] if a[0] == 'fld' else canon(m, a)] = v
                    return tuple(sorted(d.items(), key=repr)), al
            return x

        def ex(x, t, tr, rv):
            if rv is None or tr.null(rv) is True:
                return
            st, size = dict(x[0]), x[1]
            W = t.where()

            def want(c, msg):
                R.check(c, fn, W, msg, trace=tr.trace())
            R.cur = 'frame'
            if size is None or rv[0] != 'call' or rv[1] not in ALLOC:
                raise AnalysisBroken('frame: %s does not return the memory it claimed' % fn.name)

            def at(v):
                """what a new task has at a value of the switch routine, its own record being the one switched to"""
                b, o = v
                if b == TO:
                    return rv, o
                if b[0] == 'mem':
                    c, co = at((b[1], b[2]))
                    w = st.get(canon(m, ('bin', 'add', c, ('int', co)))) if c is not None else None
                    return w, o
                return None, o
            go, off = at(target)
            want(go in [('g', e) for e in ENTRY] and off == 0, 'a new task does not begin with its function')
            sp, o = at(reg['rsp'])
            want(sp is not None, 'a new task has no stack of its own')
            if sp is None:
                return
            esp = ('bin', 'add', sp, ('int', o))
            want(residue(m, esp, 16) == 8, 'a new task begins with a stack that is not aligned as calls expect')
            if go != ('g', 'task_func'):
                want(st.get(canon(m, esp)) == ('g', 'task_done'), 'the function of a task has nothing behind it that ends the task')
            f, c, sl = diff(m, rv, size, esp)
            want(not f and c >= 8, 'the stack of a new task begins above the end of its memory')
            want(not f and c + sl <= 256, 'a new task does not get the whole of its memory for its stack')
            R.cur = 'room'
            want(st.get('stack_size') == size, 'the size noted for the memory of a task is not its size')
            f, c, sl = diff(m, rv, None, st.get('stack_base', rv), -1)
            want(not f and c >= area and sl == 0, 'the record of a task lies in the part its stack may use')
            sz = down(m, size)
            req = ('arg', 0)
            if sz[0]:
                want(set(sz[0]) == {req} and sz[0][req] >= 1 and sz[1] - sz[2] >= area, 'a task gets less stack than it asked for')
            else:
                top = bound(tr.F, req)
                want(top is not None and sz[1] - area >= top, 'a task gets less stack than it asked for')
            if sz[0]:
                low = least(tr.F, req)
                want(low is not None and low >= 4096, 'a task may get hardly any stack')
            else:
                want(sz[1] - area >= 4096, 'a task may get hardly any stack')
        Track(fn, step=step, exit=ex, x0=((), None), pure={'active_task'}, keep=lambda n, a: False,
              about=lambda key: mentions(key, lambda e: e in argf or e[0] == 'call' and e[1] in ALLOC)).run()
    R.cur = 'frame'
    R.floor(k, 1, 'functions that set up the stack of a task')


def canon(m, a):
    f, c = plin(m, a)
    return ('at', tuple(sorted(f.items(), key=repr)), c)


def diff(m, rv, size, x, sign=1):
    """(memory + size) - x, or x - memory: form, least value, slack"""
    fx, cx, sx = down(m, x)
    f, c, s = down(m, rv)
    if size is not None:
        # sizes are rounded, so are kept as they are
        f2, c2 = plin(m, size)
        for t, k in f2.items():
            f[t] = f.get(t, 0) + k
        c += c2
    fx2, cx2, sx2 = keepand(m, x, set(f))
    for t, k in fx2.items():
        f[t] = f.get(t, 0) - k
    r = {t: sign * k for t, k in f.items() if k}
    if sign == 1:
        return r, c - cx2, sx2
    return r, cx2 - c, sx2


def keepand(m, e, whole):
    """like down(), but rounded terms in whole are left alone"""
    terms, c = plin(m, e)
    out, slack = {}, 0
    for t, k in terms.items():
        if t not in whole and t[0] == 'bin' and t[1] == 'and' and k == 1 and t[3][0] == 'int' and t[3][1] < 0 and (-t[3][1]) & (-t[3][1] - 1) == 0:
            f, fc, fs = keepand(m, t[2], whole)
            for u, n in f.items():
                out[u] = out.get(u, 0) + n
            c += fc
            slack += fs - t[3][1] - 1
        else:
            out[t] = out.get(t, 0) + k
    return {t: k for t, k in out.items() if k}, c, slack


def bound(F, v):
    """largest value v can have"""
    out = []
    for k, p in F.items():
        if k[0] not in ('eq', 'lt'):
            continue
        a, b = k[-2], k[-1]
        for x, y, top, less in ((a, b, 'lt', 1), (b, a, 'ge', 0)):
            f, c = lin(x)
            if set(f) != {v} or f[v] < 1 or y[0] != 'int':
                continue
            if k[0] == 'eq' and p:
                out.append((y[1] - c) // f[v])
            if k[0] == 'lt' and p == (top == 'lt'):
                out.append((y[1] - c - less) // f[v])
    return min(out) if out else None


def least(F, v):
    out = [0]
    for k, p in F.items():
        if k[0] == 'lt' and k[2] == v and k[3][0] == 'int' and not p:
            out.append(k[3][1])
        if k[0] == 'lt' and k[3] == v and k[2][0] == 'int' and p:
            out.append(k[2][1] + 1)
    return max(out)


# ------------------------------------------------------------------------------------------------------- the switch
def switch(R):
    R.cur = 'switch'
    m = view(R)
    k = 0
    for fn in funcs(m):
        sw = swaps(fn)
        if not sw:
            continue
        R.saw(fn)
        k += len(sw)

        # x = the status each record was given last (the two tasks of a switch are different ones)
        def step(x, i, t):
            if i.op == 'store':
                a = t.ev(i.ops[1])
                if a[0] == 'fld' and a[3] == 'status':
                    return put(x, a[1], t.ev(i.ops[0]))
            if i in sw:
                a, b = t.ev(i.ops[0]), t.ev(i.ops[1])
                W = i.where()

                def want(c, msg):
                    R.check(c, fn, W, msg, trace=t.trace())
                want(isld(b, ACT), 'what is saved is not put into the record of the task that was active')
                want(t.mem(ACT) == a, 'the task switched to is not noted as the active one')
                want(t.mem(CURH) == b, 'a task does not learn who switched to it, where it has to return')
                want(dict(x).get(a) == ('int', RUNNING), 'the task switched to is not noted as running')
                s = dict(x).get(b)
                if s is None:
                    want(known(t.F, b, SLEEPING), 'the task switched from is still noted as running')
                else:
                    want(s == ('int', NORMAL) and known(t.F, b, SLEEPING, False), 'the task switched from is noted as what it is not')
                want(not isld(a, ACT), 'a switch to the task that was active')
            return x
        Track(fn, step=step, x0=()).run()
    R.floor(k, 1, 'switches')


def put(x, k, v):
    d = dict(x)
    d[k] = v
    return tuple(sorted(d.items(), key=repr))


def F_(b, f):
    return ('fld', b, None, f)


def isld(v, a):
    return v[0] in ('ld', 'load') and v[1] == a


def known(F, b, st, pol=True):
    """the status of task b is known to be (not to be) st"""
    for k, p in F.items():
        if k[0] == 'eq' and p == pol:
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if y == ('int', st) and x[0] in ('ld', 'load') and x[1] == F_(b, 'status'):
                    return True
    return False


# ------------------------------------------------------------------------------------------------------ the scheduler
RUN = ('fld', THRD, None, 'running')


def runs(R):
    R.cur = 'runs'
    m = view(R)
    k = 0
    for fn in funcs(m):
        rn = [i for i in fn.instrs() if i.op == 'store' and thrd_field(S(fn.ex(i.ops[1])), 'running') and S(fn.ex(i.ops[0])) != ('int', 0)]
        if not rn or not calls(fn, 'task_switch'):
            continue
        R.saw(fn)
        k += 1

        # x = the task noted as running, whether it was switched to
        def step(x, i, t):
            if i.op == 'store' and t.ev(i.ops[1]) == RUN:
                return (t.ev(i.ops[0]), False)
            if name(i) == 'task_switch':
                v = t.ev(i.ops[0])
                R.check(v == x[0], fn, i.where(), 'the task switched to is not the one noted as running', trace=t.trace())
                h = t.mem(F_(v, 'halt'))
                f = h is not None and (h == ('int', 0) or t.null(h) is True) or any(
                    q[0] == 'eq' and p and q[2] == ('int', 0) and isld(q[1], F_(v, 'halt')) for q, p in t.F.items())
                R.check(f, fn, i.where(), 'a task that has ended may be switched to', trace=t.trace())
            return x

        def ex(x, t, tr, rv):
            R.check(x[0] in (('int', 0), None), fn, t.where(), 'a task is still noted as running while the scheduler is', trace=tr.trace())
        Track(fn, step=step, exit=ex, x0=(None, False), about=lambda key: mentions(key, lambda e: e[0] == 'fld' and e[3] in ('halt', 'head'))).run()
    R.floor(k, 1, 'functions that run the next task')


# ------------------------------------------------------------------------------------------------- the end of the stack
def overflow(R):
    R.cur = 'overflow'
    m = R.prog.std()
    magic = {S(f.ex(i.ops[0])) for f in funcs(m) for i in f.instrs()
             if i.op == 'store' and field_of(S(f.ex(i.ops[1])), 'magic_number', 'events_task_s') and calls(f, *ALLOC)}
    fn = m.fn('tasks_stack_check')
    R.saw(fn)
    R.floor(len(magic), 1, 'marks of a live task')

    def ex(x, t, tr, rv):
        def isf(e, f):
            return e[0] in ('ld', 'load') and e[1][0] == 'fld' and e[1][3] == f and e[1][1][0] in ('ld', 'load') and e[1][1][1] == RUN
        live = top = False
        for k, p in tr.F.items():
            if k[0] == 'eq' and p and (isf(k[1], 'magic_number') and k[2] in magic or isf(k[2], 'magic_number') and k[1] in magic):
                live = True
            if k[0] == 'lt':
                # how much more than the base of the stack is known to be left
                f, c = lin(('bin', 'sub', k[2], k[3]))
                sign = 1
                if p:
                    f, c, sign = {q: -v for q, v in f.items()}, -c - 1, 1
                loc = [q for q, v in f.items() if (q[0] == 'alloca' or q[0] == 'call' and 'frameaddress' in str(q[1])) and v == 1]
                base = [q for q, v in f.items() if isf(q, 'stack_base') and v == -1]
                if loc and base and f.get(('arg', 0)) == -1 and c <= -128:
                    top = True
        R.check(live, fn, t.where(), 'a task whose record was overwritten is let go on', trace=tr.trace())
        R.check(top, fn, t.where(), 'a task that used up its stack is let go on', trace=tr.trace())
    Track(fn, exit=ex, x0=0, noreturn={'abort'}).run()
    # whoever suspends outside of callbacks is looked at first
    k = 0
    for fn in funcs(R.prog.std()):
        if fn.name not in ('suspend', 'task_yielding'):
            continue
        R.saw(fn)
        k += 1

        def step(x, i, t):
            if name(i) == 'tasks_stack_check':
                return True
            if name(i) == 'task_switch' and not x:
                cb = any(q[0] == 'eq' and not p and q[2] == ('int', 0) and q[1][0] in ('ld', 'load') and
                         q[1][1] in (('fld', THRD, None, 'in_callback'), ('fld', THRD, None, 'active_timer')) for q, p in t.F.items())
                R.check(cb, fn, i.where(), 'a task is suspended without a look at its stack', trace=t.trace())
            elif name(i) == 'task_switch':
                R.ok('%s: %s' % (fn.name, i.where()))
            return x
        Track(fn, step=step, x0=False).run()
    R.floor(k, 1, 'functions that suspend the running task')


TEXT = [
    ('swap', 'the switch routine saves everything the calling convention preserves in the record of the task it leaves and restores it, with stack and place, '
     'when that task is switched to again; it writes nowhere else'),
    ('frame', 'a new task begins with its function on an aligned stack at the top of its own memory, with what ends it behind'),
    ('room', 'the memory of a task has room for its record and the stack it asked for, apart from each other'),
    ('switch', 'a switch notes the task switched to as active and running, the one left as where to return to, and saves into the latter'),
    ('runs', 'the scheduler notes the task it switches to as running, for as long as it does, and never switches to one that has ended'),
    ('overflow', 'a task that suspends with its stack used up or its record overwritten is stopped'),
]
RULES = [swap, frame, switch, runs, overflow]


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


RULES.insert(0, start)

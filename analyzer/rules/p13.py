"""P13: registering descriptors with a loop, changing them, and calling their callbacks."""
from rules.common import *
from track import *

R_, W_, ADD, DEL, PATH, SIG = 1, 2, 0x40000000, 0x20000000, 0x8000, 255
IN, OUT, ERR, HUP = 1, 4, 8, 16
CTL_ADD, CTL_DEL, CTL_MOD = 1, 2, 3
STABLE_F = ('fds', 'max_fd', 'epfd')
Z = ('int', 0)


def on_fds(a):
    return mentions(a, lambda x: x[0] == 'fld' and x[3] == 'fds')


def tfld(a, f):
    """a is field f of some descriptor's record"""
    return a[0] == 'fld' and a[3] == f and on_fds(a[1])


def target(fd):
    b = ('load', ('fld', ('g', 'sys_event'), None, 'fds'))
    return b if fd == Z else ('idx', b, fd)


def is_target(a, fd):
    return nodest(a) == nodest(target(fd))


def eff(m):
    e = getattr(m, '_effects', None)
    if e is None:
        e = m._effects = Effects(m)
    return e


# ------------------------------------------------------------ the kernel's set follows the wanted events
def update(R):
    R.rule('update', TEXT['update'])
    m = R.prog.std()
    fn = m.fn('events_update_internal')
    R.saw(fn)
    cases = [(rw | f, te) for rw in (0, 1, 2, 3) for f in (0, ADD) for te in (0, 1, 2, 3, 5)]
    cases += [(PATH | ADD, 0), (PATH, 0), (DEL, 0), (DEL, 1), (DEL, 2), (DEL, 3)]
    for event, te in cases:
        rw, pw, de = event & 3, bool(event & PATH), bool(event & DEL)
        want = IN if pw else (IN if rw & 1 else 0) | (OUT if rw & 2 else 0)

        def init(a):
            return te if tfld(a, 'events') else None

        def step(x, i, T):
            if name(i) == 'epoll_ctl':
                a = [T.ev(o) for o in i.ops]
                ptr = a[3]
                mask, fd = T.mem(('fld', ptr, None, 'events')), T.mem(('fld', ptr, None, 'data'))
                ok = nodest(a[0])[0] == 'load' and nodest(a[0])[1][3:] == ('epfd',) and a[2] == ('arg', 1)
                x = x + ((i.dest, a[1][1] if a[1][0] == 'int' else None, mask[1] if mask and mask[0] == 'int' else None,
                          fd, ok, i.where()),)
            return x

        def ex(x, t, T, rv):
            what = 'wanted %#x, so far %#x' % (event, te)
            tr = T.trace()
            res = [T.null(('call', 'epoll_ctl', c[0])) for c in x]
            for c in x:
                if not c[4]:
                    R.bad(fn, c[5], '%s: another descriptor or kernel set is changed' % what, tr)
            if rv is not None and rv[0] == 'int' and rv[1] != 0:
                R.check(bool(x) and res[-1] is False, fn, t.where(), '%s: refused although the kernel did not refuse' % what,
                        what + ' refused', tr)
                return
            regs = [(c, r) for c, r in zip(x, res) if c[1] in (CTL_ADD, CTL_MOD)]
            tev = [v for a, v in T.K.items() if tfld(a, 'events')]
            now = tev[-1] if tev else ('int', te)
            if now[0] != 'int' or (now[1] & 3) != (0 if pw or de else rw):
                R.bad(fn, t.where(), '%s: the events noted for the descriptor are not the wanted ones' % what, tr)
                return
            for (c, r) in regs:
                if c[2] is None or (c[2] & 0x1f) != want or c[3] != ('arg', 1):
                    R.bad(fn, c[5], '%s: the kernel is asked for other events or told another descriptor' % what, tr)
                    return
            if de:
                R.check(not regs, fn, t.where(), '%s: a removal registers the descriptor' % what, what, tr)
            elif pw or rw:
                if not x:
                    R.check(rw == te and not pw, fn, t.where(), '%s: the kernel is not told' % what, what, tr)
                else:
                    R.check(bool(regs) and x[-1] == regs[-1][0] and res[-1] is True, fn, t.where(),
                            '%s: reported as done although the kernel was not told or refused' % what, what, tr)
            else:
                if not x:
                    R.check(te & 3 == 0, fn, t.where(), '%s: the kernel still watches the descriptor' % what, what, tr)
                else:
                    R.check(res[-1] is True, fn, t.where(), '%s: reported as done although the kernel refused' % what, what, tr)
        Track(fn, step=step, exit=ex, init=init, args={2: event}, stable=STABLE_F, pure=('epoll_ctl',)).run()
    # when the descriptor is not known to the kernel yet, it is added
    R.floor(R.rules['update']['obligations'], 30, 'cases')


# ------------------------------------------------------------ events reported by the kernel
def dispatch(R):
    m = R.prog.std()
    fns = list(callers(m, 'epoll_wait'))
    R.rule('dispatch', TEXT['dispatch'])
    R.floor(len(fns), 1, 'functions that wait for events')
    E = eff(m)
    for fn in fns:
        R.saw(fn)
        waits = calls(fn, 'epoll_wait')

        for ev in range(32):
            if ev & 2:
                continue
            for te in (0, 1, 2, 3):
                for pw in (0, 1):
                    one_dispatch(R, fn, E, ev, te, pw)
        cover(R, fn, waits)


def one_dispatch(R, fn, E, ev, te, pw):
    what = 'reported %#x, wanted %#x%s' % (ev, te, ', path watch' if pw else '')
    told = (R_ if ev & IN else 0) | (W_ if ev & OUT else 0) | (5 if ev & (HUP | ERR) else 0)

    def init(a):
        if a[0] == 'fld' and a[3] == 'events':
            return te if on_fds(a[1]) else ev
        if tfld(a, 'is_pathwatcher'):
            return pw
        return None

    def mine(T):
        """does the descriptor looked at belong to this loop"""
        for k, v in T.F.items():
            if k[0] == 'eq' and k[1][0] in ('ld', 'load') and k[2][0] in ('ld', 'load') and \
                    k[1][1][0] == 'fld' and k[1][1][3] == 'loop_id' and k[2][1][0] == 'fld' and k[2][1][3] == 'loop_id' and \
                    on_fds(k[1][1]) != on_fds(k[2][1]):
                return v
        return None

    def fdof(T, a):
        """descriptor expression of the record an address lies in"""
        a = nodest(a)
        while a[0] == 'fld' and not (a[1][0] == 'idx' and on_fds(a[1][1])):
            a = a[1]
        return a[1][2] if a[0] == 'fld' else None

    # x: None before the first look, else (calls, kernel removals, handed on, failed)
    def step(x, i, T):
        if i.op != 'call':
            return x
        n = name(i)
        c = i.attr.get('callee')
        calls_, rem, hand, fail = x
        if n is None and c is not None:
            ce = T.ev(c)
            if ce[0] in ('ld', 'load') and ce[1][0] == 'fld' and ce[1][3] == 'callback':
                a = [T.ev(o) for o in i.ops]
                fd = fdof(T, ce[1])
                good = len(a) == 3 and fd is not None and nodest(a[0]) == fd and is_event_fd(fd) and a[1] == ('int', told) and \
                    a[2][0] in ('ld', 'load') and a[2][1] == ('fld', ce[1][1], None, 'cb_arg')
                if mine(T) is not True:
                    R.bad(fn, i.where(), '%s: a descriptor of another loop or a removed one is called back' % what, T.trace())
                elif not (te & 3):
                    R.bad(fn, i.where(), '%s: a descriptor nobody waits for is called back' % what, T.trace())
                elif pw:
                    R.bad(fn, i.where(), '%s: a path watch is called back without its events' % what, T.trace())
                elif not good:
                    R.bad(fn, i.where(), '%s: the callback is given something else than the descriptor, what happened to it '
                          'and its argument' % what, T.trace())
                calls_ = min(calls_ + 1, 2)
        elif n == 'epoll_ctl':
            a = [T.ev(o) for o in i.ops]
            if a[1] == ('int', CTL_DEL) and is_event_fd(nodest(a[2])):
                rem = 1
                if mine(T) is True and (te or pw):
                    R.bad(fn, i.where(), '%s: a watched descriptor is removed from the kernel' % what, T.trace())
        elif n == 'read' and pw:
            a = [T.ev(o) for o in i.ops]
            if is_event_fd(nodest(a[0])):
                hand = ('read', a[1], i.dest)
        elif n == 'async_task' and hand and hand[0] == 'read':
            a = [strip(T.ev(o)) for o in i.ops]
            names = [y[1][3] for y in a if y[0] in ('ld', 'load') and y[1][0] == 'fld']
            if hand[1] in a and ('call', 'read', hand[2]) in a and 'callback' in names and 'cb_arg' in names:
                hand = ('given', hand[1], hand[2])
        elif n == 'events_free' and hand and hand[0] == 'read' and T.ev(i.ops[0]) == hand[1]:
            hand = ('freed', hand[1], hand[2])
        return (calls_, rem, hand, fail)

    def close(x, where, T):
        calls_, rem, hand, fail = x
        mn = mine(T)
        if calls_ > 1:
            R.bad(fn, where, '%s: called back twice' % what, T.trace())
        elif mn is True and (te & 3) and not pw and told:
            R.check(calls_ == 1, fn, where, '%s: the callback is not called' % what, what, T.trace())
        elif mn is True and pw:
            R.check(hand is not None and hand[0] == 'given', fn, where,
                    '%s: the events of a path watch are not handed on' % what, what, T.trace())
        elif mn is False or mn is True and not te and not pw:
            R.check(rem == 1 and not calls_, fn, where, '%s: a descriptor not wanted any more stays with the kernel' % what,
                    what + ' stale', T.trace())
        elif mn is None:
            R.bad(fn, where, '%s: an event is passed over' % what, T.trace())
        else:
            R.ok(what)

    hdr = event_loop_header(fn)

    def back(x, h, again, T):
        if h != hdr:
            return x
        if again:
            close(x, fn.blocks[h].ins[-1].where(), T)
            T.F = {k: v for k, v in T.F.items() if not mentions(k, lambda y: y[0] == 'fld' and y[3] == 'loop_id')}
        return (0, 0, None, 0)

    def ex(x, t, T, rv):
        calls_, rem, hand, fail = x
        if rv is not None and rv[0] == 'int' and rv[1] < 0 and not calls_:
            iscall = lambda v: strip(v)[0] == 'call'
            failed = any(v for k, v in T.F.items() if k[0] == 'eq' and iscall(k[1]) and
                         (k[1][1] == 'epoll_wait' and k[2] == ('int', -1) or k[2] == Z and strip(k[1])[1] != 'epoll_wait')) or \
                any(v for k, v in T.F.items() if k[0] == 'lt' and iscall(k[2]) and k[3] == Z)
            R.check(failed, fn, t.where(), '%s: a failure is reported although nothing failed' % what, what, T.trace())
            return
        if rem or calls_ or hand:
            R.bad(fn, t.where(), '%s: the rest of the events is dropped' % what, T.trace())
    Track(fn, step=step, exit=ex, back=back, init=init, stable=STABLE_F, x0=(0, 0, None, 0),
          keep=lambda n, a: n is not None and E.keeps(n, a)).run()


def is_event_fd(e):
    """the descriptor of the event looked at: a field of an element of the array the kernel filled in"""
    return e[0] == 'load' and mentions(e, lambda x: x[0] == 'fld' and x[3] == 'data') and not on_fds(e)


def event_loop_header(fn):
    """the innermost loop that looks up the records of reported descriptors"""
    best = None
    for h in sorted(loop_headers(fn)):
        body = Loop(fn, h).body
        has = any(i.op == 'load' and tfld(S(fn.ex(i.ops[0])), 'loop_id') for b in body for i in fn.blocks[b].ins)
        if has and (best is None or len(body) < len(best[1])):
            best = (h, body)
    if best is None:
        raise AnalysisBroken('no loop over the reported events in %s' % fn.name)
    return best[0]


def cover(R, fn, waits):
    """the loop visits every reported event, and no other element"""
    h = event_loop_header(fn)
    L = Loop(fn, h)
    n = ('call', 'epoll_wait', waits[0].dest)
    arr = S(fn.ex(waits[0].ops[1]))
    cap = S(fn.ex(waits[0].ops[2]))
    mx = max([int(x) for d in fn.mod.types.structs.values() for x in re.findall(r'\[(\d+) x %"?struct\.epoll_event"?\]', d)] or [0])
    if mx and arr[0] == 'fld':
        R.check(cap[0] == 'int' and 0 < cap[1] <= mx, fn, waits[0].where(), 'more events are asked for than there is room for')
    elem = set()
    for b in L.body:
        for i in fn.blocks[b].ins:
            if i.op == 'load':
                a = S(fn.ex(i.ops[0]))
                if a[0] == 'fld' and a[3] in ('data', 'events') and not on_fds(a):
                    elem.add(a[1])
    R.check(len(waits) == 1, fn, waits[0].where(), 'events are asked for more than once before they are handled')
    for e in elem:
        t, c = L.inrounds(e)
        base = dict(t)
        k = base.pop(('T',), 0)
        bt, bc = L.inrounds(arr)
        up = k == 1 and base == bt and c == bc
        down = k == -1 and base == dict(bt, **{}) | {n: 1} and c == bc - 1
        R.check(up or down, fn, fn.blocks[h].ins[-1].where(), 'the events reported are not gone through one by one from the first')
    done = False
    for t, pol, tgt in L.exits():
        if L.stays_while(t, pol, ({n: 1}, 0)):
            done = True
            R.ok('%s: ends after the last event (%s)' % (fn.name, t.where()))
            continue
        # other ways out must be failures
        R.check(leaves_failing(fn, t.blk.name, tgt), fn, t.where(), 'the events reported are not all looked at')
    R.check(done, fn, fn.blocks[h].ins[-1].where(), 'the loop over the events does not end with the last one reported')


def leaves_failing(fn, frm, tgt):
    """every return reached by this edge is a negative constant"""
    ok = [True]
    b, prev = tgt, frm
    for _ in range(50):
        t = fn.blocks[b].term
        if t.op == 'ret':
            e = fn.ex(t.ops[0]) if t.ops else None
            if e is not None and e[0] == 'phi' and fn.defs[e[1]].blk.name == b:
                e = next(fn.ex(v) for v, p in fn.defs[e[1]].attr['inc'] if p == prev)
            return e is not None and e[0] == 'int' and e[1] < 0
        if t.op == 'br' and len(t.attr['targets']) == 1:
            nxt = t.attr['targets'][0]
            ph = [i for i in fn.blocks[nxt].ins if i.op == 'phi']
            # follow a value through a chain of joins
            prev, b = b, nxt
            tt = fn.blocks[nxt].term
            if ph and tt.op != 'ret':
                vals = {i.dest: next(fn.ex(v) for v, p in i.attr['inc'] if p == prev) for i in ph}
                last = [x for x in fn.order if x.term.op == 'ret'][0]
                e = fn.ex(last.term.ops[0]) if last.term.ops else None
                if e is not None and e[0] == 'phi' and e[1] in vals:
                    return vals[e[1]][0] == 'int' and vals[e[1]][1] < 0
            continue
        return False
    return False


# ------------------------------------------------------------ adding and removing
def count_step(x, i, T, f):
    """(delta of the loop's counter) after a store"""
    a = T.ev(i.ops[1])
    if a[0] == 'fld' and a[3] == f:
        t, c = lin(T.ev(i.ops[0]))
        if len(t) == 1 and list(t.values()) == [1] and list(t)[0][0] in ('ld', 'load') and list(t)[0][1] == a:
            return a[1], c
        return a[1], 'set'
    return None


def add(R):
    m = R.prog.std()
    R.rule('add', TEXT['add'])
    E = eff(m)
    fn = m.fn('events_add')
    R.saw(fn)
    for event in (R_, W_, R_ | W_, PATH):
        regd = {}

        def step(x, i, T):
            up, tm, dl, sg, touched = x
            n = name(i)
            if i.op == 'store':
                a = T.ev(i.ops[1])
                d = count_step(x, i, T, 'active_descriptors')
                if d:
                    if d[1] == 'set' or d[0] != ('arg', 0):
                        R.bad(fn, i.where(), 'the number of registered descriptors is not counted for the loop', T.trace())
                    dl = dl + d[1] if d[1] != 'set' and abs(dl) < 3 else dl
                d = count_step(x, i, T, 'active_signals')
                if d:
                    if d[1] == 'set' or d[0] != ('arg', 0):
                        R.bad(fn, i.where(), 'the number of registered signals is not counted for the loop', T.trace())
                    sg = sg + d[1] if d[1] != 'set' and abs(sg) < 3 else sg
                if a[0] == 'fld' and on_fds(a[1]):
                    rng = any(v and k[0] == 'lt' and k[1] == 'u' and k[3][0] in ('load', 'ld') and k[3][1][3:] == ('max_fd',)
                              for k, v in T.F.items())
                    R.check(rng, fn, i.where(), 'a descriptor out of range is touched', None, T.trace())
                    touched = True
            elif n == 'events_update_internal':
                a = [T.ev(o) for o in i.ops]
                fd = a[1]
                tg = target(fd)
                pre = {f: T.mem(('fld', tg, None, f)) for f in ('loop', 'loop_id', 'events')}
                ok = a[0] == ('arg', 0) and a[2][0] == 'int' and a[2][1] & (3 | PATH) == event & (3 | PATH) and not a[2][1] & DEL
                if not ok:
                    R.bad(fn, i.where(), 'the kernel is not asked for the wanted events of the descriptor', T.trace())
                if pre['events'] != Z or pre['loop_id'] is None or nodest(pre['loop_id']) != ('load', ('fld', ('arg', 0), None, 'loop_id')):
                    R.bad(fn, i.where(), 'the record is not prepared before the kernel is asked', T.trace())
                if event != PATH and fd != ('arg', 1):
                    R.bad(fn, i.where(), 'another descriptor is registered', T.trace())
                up = (i.dest, fd)
            elif n == 'events_set_timeout' and up:
                a = [T.ev(o) for o in i.ops]
                unused = T.mem(('fld', target(up[1]), None, 'timeout_idx'))
                tm = a[0] == up[1] and a[1] == ('arg', 3) and unused in (('int', -1), ('int', 255))
            elif n == 'events_add_signal':
                R.bad(fn, i.where(), 'a descriptor is registered as a signal', T.trace())
            return (up, tm, dl, sg, touched)

        def ex(x, t, T, rv):
            up, tm, dl, sg, touched = x
            tr = T.trace()
            w = t.where()
            if rv is None or rv[0] != 'int':
                R.bad(fn, w, 'the result is not definite', tr)
                return
            if up is None:
                R.check(rv[1] != 0 and dl == 0 and sg == 0 and not touched, fn, w,
                        'a descriptor is reported as registered, counted or changed without asking the kernel', 'refused', tr)
                return
            tg = target(up[1])
            g = lambda f: T.mem(('fld', tg, None, f))
            done = T.null(('call', 'events_update_internal', up[0]))
            if rv[1] == 0:
                R.check(done is True, fn, w, 'a descriptor is reported as registered although the kernel refused', 'kernel', tr)
                R.check(dl == 1 and sg == 0, fn, w, 'a registered descriptor is not counted once', 'counted', tr)
                R.check(tm is True, fn, w, 'the timeout asked for is not set', 'timeout', tr)
                R.check(g('callback') == ('arg', 4) and g('cb_arg') == ('arg', 5) and g('loop') == ('arg', 0) and
                        nodest(g('loop_id') or Z) == ('load', ('fld', ('arg', 0), None, 'loop_id')), fn, w,
                        'the record of a descriptor does not hold its callback, argument and loop', 'record', tr)
                R.check(g('is_pathwatcher') is not None and (T.holds(g('is_pathwatcher')) is (event == PATH) or
                        T.null(g('is_pathwatcher')) is (event != PATH)),
                        fn, w, 'the record does not say whether it is a path watch', 'record', tr)
            else:
                R.check(done is False and dl == 0 and sg == 0 and g('loop_id') == Z and g('loop') == Z, fn, w,
                        'a refused descriptor stays registered or counted', 'refused', tr)
        Track(fn, step=step, exit=ex, args={2: event}, stable=STABLE_F, x0=(None, None, 0, 0, False),
              keep=lambda n, a: E.keeps(n, a)).run()


def strip(v):
    while v is not None and v[0] == 'trunc':
        v = v[2]
    return v


def delete(R):
    m = R.prog.std()
    R.rule('del', TEXT['del'])
    E = eff(m)
    fn = m.fn('events_del')
    R.saw(fn)
    for sig in (0, 1):
        def init(a):
            if tfld(a, 'signal_set'):
                return sig
            if tfld(a, 'is_iodispatch'):
                return 0
            return None

        def step(x, i, T):
            up, tm, dl, sg, ds = x
            n = name(i)
            if i.op == 'store':
                d = count_step(x, i, T, 'active_descriptors')
                if d:
                    lp = nodest(d[0])
                    if d[1] == 'set' or lp != ('load', ('fld', nodest(target(('arg', 0))), None, 'loop')):
                        R.bad(fn, i.where(), 'the number of registered descriptors is not counted for the loop', T.trace())
                    dl = dl + d[1] if d[1] != 'set' and abs(dl) < 3 else dl
                d = count_step(x, i, T, 'active_signals')
                if d:
                    sg = sg + d[1] if d[1] != 'set' and abs(sg) < 3 else sg
            elif n == 'events_update_internal':
                a = [T.ev(o) for o in i.ops]
                ok = nodest(a[0]) == ('load', ('fld', nodest(target(('arg', 0))), None, 'loop')) and a[1] == ('arg', 0) and \
                    a[2][0] == 'int' and not a[2][1] & (3 | PATH | ADD)
                R.check(ok, fn, i.where(), 'another descriptor or loop is changed', None, T.trace())
                up = i.dest
            elif n == 'events_set_timeout':
                a = [T.ev(o) for o in i.ops]
                tg = target(('arg', 0))
                still = T.mem(('fld', tg, None, 'loop')) != Z and T.mem(('fld', tg, None, 'loop_id')) != Z
                tm = a == [('arg', 0), Z] and still
            elif n == 'events_del_signal':
                ds = T.ev(i.ops[0]) == ('arg', 0)
            return (up, tm, dl, sg, ds)

        def ex(x, t, T, rv):
            up, tm, dl, sg, ds = x
            tr, w = T.trace(), t.where()
            if rv is None or rv[0] != 'int':
                R.bad(fn, w, 'the result is not definite', tr)
                return
            tg = target(('arg', 0))
            g = lambda f: T.mem(('fld', tg, None, f))
            if ds:
                R.check(dl == 0, fn, w, 'a descriptor is counted off with a signal', 'signal', tr)
            elif rv[1] == 0:
                R.check(up is not None and T.null(('call', 'events_update_internal', up)) is True and tm is True and dl == -1 and
                        sg == 0 and g('loop_id') == Z and g('loop') == Z, fn, w,
                        'a descriptor is reported as removed although it stays registered, counted or its timeout armed',
                        'removed', tr)
            else:
                lp = T.mem(('fld', tg, None, 'loop'))
                none = lp is not None and T.null(lp) is True
                failed = up is not None and T.null(('call', 'events_update_internal', up)) is False
                R.check((none or failed) and dl == 0 and sg == 0, fn, w, 'a registered descriptor is not removed, or counted',
                        'refused', tr)
        Track(fn, step=step, exit=ex, init=init, stable=STABLE_F, x0=(None, None, 0, 0, None),
              keep=lambda n, a: E.keeps(n, a)).run()


def count(R):
    R.rule('count', TEXT['count'])
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        for i in fn.instrs():
            if i.op != 'store':
                continue
            a = S(fn.ex(i.ops[1]))
            if a[0] != 'fld' or a[3] not in ('active_descriptors', 'active_signals'):
                continue
            n += 1
            v = S(fn.ex(i.ops[0]))
            if v == Z:
                R.check(reaches_fresh(fn, a), fn, i.where(), 'the count of a loop in use is reset')
            else:
                R.check(fn.name in ('events_add', 'events_del', 'kqueue_add_watch'), fn, i.where(),
                        'the count of registered descriptors or signals is changed outside registration')
    R.floor(n, 3, 'changes of the counts')


def reaches_fresh(fn, a):
    """the loop record is being set up here: its identity is written too"""
    return any(i.op == 'store' and S(fn.ex(i.ops[1]))[0] == 'fld' and S(fn.ex(i.ops[1]))[3] == 'loop_id' and
               S(fn.ex(i.ops[1]))[1] == a[1] for i in fn.instrs())


# ------------------------------------------------------------ queries
def access(R):
    R.rule('access', TEXT['access'])
    m = R.prog.std()
    E = eff(m)
    fd = ('arg', 1)

    def run(nm, check, init=None, args=None):
        fn = m.fn(nm)
        R.saw(fn)
        Track(fn, exit=lambda x, t, T, rv: check(fn, t, T, rv), init=init, args=args, stable=STABLE_F,
              keep=lambda n, a: E.keeps(n, a)).run()
    for te in range(8):
        run('events_get_event', lambda fn, t, T, rv: R.check(rv == ('int', te & 3), fn, t.where(),
            'the wanted events of a descriptor are not the ones reported', None, T.trace()),
            init=lambda a: te if tfld(a, 'events') else None)
    for mine, lid in ((0, 1), (1, 1), (2, 1)):
        def init(a):
            if a[0] == 'fld' and a[3] == 'loop_id':
                return mine if on_fds(a[1]) else lid
            return None

        def chk(fn, t, T, rv):
            lp = T.null(('arg', 0)) if ('eq', ('arg', 0), Z) in T.F else None
            want = mine != 0 if lp is True else mine == lid if lp is False else None
            R.check(rv is not None and rv[0] == 'int' and want is not None and bool(rv[1]) == want, fn, t.where(),
                    'a descriptor is reported as registered with a loop it is not registered with, or the reverse',
                    None, T.trace())
        run('events_is_registered', chk, init=init)

    def getcb(fn, t, T, rv):
        tg = nodest(target(('arg', 1)))
        out = T.mem(('arg', 2))
        ok = nodest(rv) == ('load', ('fld', tg, None, 'callback')) and \
            (T.null(('arg', 2)) is True or out is not None and nodest(out) == ('load', ('fld', tg, None, 'cb_arg')))
        R.check(ok, fn, t.where(), 'the callback or argument of a descriptor is not the one handed out', None, T.trace())
    run('events_get_callback', getcb)

    def setcb(fn, t, T, rv):
        tg = target(('arg', 1))
        a = T.mem(('fld', tg, None, 'cb_arg'))
        ok = T.mem(('fld', tg, None, 'callback')) == ('arg', 2) and \
            (T.null(('arg', 3)) is True and (a is None or a[0] == 'ld') or a is not None and nodest(a) == ('load', ('arg', 3)))
        R.check(ok, fn, t.where(), 'the callback or argument of a descriptor is not replaced as asked', None, T.trace())
    run('events_set_callback', setcb)
    for te in range(4):
        for ev in range(4):
            fn = m.fn('events_set_event')
            R.saw(fn)

            def step(x, i, T):
                if name(i) == 'events_update_internal':
                    a = [T.ev(o) for o in i.ops]
                    lp = nodest(a[0])
                    own = lp in (('call', 'events_loop', lp[-1]), ('load', ('fld', nodest(target(('arg', 0))), None, 'loop')))
                    ok = own and a[1] == ('arg', 0) and a[2][0] == 'int' and a[2][1] & ~ADD == ev
                    return (i.dest, ok)
                return x

            def ex(x, t, T, rv):
                if rv is None or rv[0] != 'int':
                    R.bad(fn, t.where(), 'the result is not definite', T.trace())
                elif not x:
                    R.check(te == ev and rv[1] == 0, fn, t.where(), 'a change of the wanted events is not made', None, T.trace())
                else:
                    r = T.null(('call', 'events_update_internal', x[0]))
                    R.check(x[1] and r is (rv[1] == 0), fn, t.where(),
                            'the wanted events are changed otherwise than asked, or the outcome misreported', None, T.trace())
            Track(fn, step=step, exit=ex, init=lambda a: te if tfld(a, 'events') else None, args={1: ev}, stable=STABLE_F,
                  keep=lambda n, a: E.keeps(n, a)).run()


# ------------------------------------------------------------ a task waiting for a descriptor
def wait(R):
    R.rule('wait', TEXT['wait'])
    m = R.prog.std()
    fn = m.fn('async_wait')
    R.saw(fn)
    cbs = set()
    for ch, want in ((ord('r'), R_), (ord('w'), W_)):
        def step(x, i, T):
            reg, sw = x
            n = name(i)
            if n == 'events_add':
                a = [T.ev(o) for o in i.ops]
                ok = nodest(a[0]) == ('load', ('fld', ('call', '__thrd', ''), None, 'loop')) and a[1] == ('arg', 0) and \
                    a[2] == ('int', want) and a[3] == Z and a[4][0] == 'g' and \
                    nodest(a[5]) == ('load', ('fld', ('call', '__thrd', ''), None, 'running'))
                R.check(ok, fn, i.where(), 'the wait is not registered for the running task, descriptor and direction', None,
                        T.trace())
                if a[4][0] == 'g':
                    cbs.add(a[4][1])
                reg = i.dest
            elif n in ('task_switch', 'task_suspend'):
                ok = reg is not None and T.null(('call', 'events_add', reg)) is True
                R.check(ok, fn, i.where(), 'a task gives up control although nothing will wake it', None, T.trace())
                sw = True
            elif n in ('yield', 'task_yield'):
                sw = True
            return (reg, sw)

        def ex(x, t, T, rv):
            R.check(x[1] is True, fn, t.where(), 'a wait returns without having waited', None, T.trace())
        Track(fn, step=step, exit=ex, args={1: ch}, stable=STABLE_F, x0=(None, False)).run()
    R.floor(len(cbs), 1, 'wake-up callbacks')
    for c in sorted(cbs):
        f = m.fn(c)
        R.saw(f)

        def step(x, i, T):
            rd, q, d = x
            if name(i) == 'events_del':
                d = T.ev(i.ops[0]) == ('arg', 0)
            elif name(i) == 'enqueue':
                q += 1
            elif i.op == 'store':
                a, v = T.ev(i.ops[1]), T.ev(i.ops[0])
                if a == ('fld', ('arg', 2), None, 'ready'):
                    rd = v == ('int', 1)
                if a[0] == 'fld' and a[3] == 'tail' and v == ('arg', 2) and mentions(
                        a[1], lambda y: y[0] == 'fld' and y[3] == 'run_queue'):
                    q = min(q + 1, 2)
            return (rd, q, d)

        def ex(x, t, T, rv):
            R.check(x == (True, 1, True), f, t.where(),
                    'a task whose descriptor is ready is not queued once, or stays registered', None, T.trace())
        Track(f, step=step, exit=ex, stable=STABLE_F, x0=(False, 0, False)).run()


TEXT = {
    'update': 'for every combination of wanted and noted events: the kernel is asked for exactly the wanted events of that '
              'descriptor (changed if known to it, else added), success is reported only if the kernel agreed, and the '
              'wanted events are noted',
    'dispatch': 'for every combination of reported events and wanted events: the callback of a descriptor of this loop that '
                'is waited for is called exactly once with the descriptor, what happened and its argument; others are '
                'removed from the kernel and not called; all reported events are gone through',
    'add': 'events_add() succeeds only with the record complete, the kernel asked, the timeout set and the descriptor '
           'counted; otherwise nothing stays registered or counted',
    'del': 'events_del() succeeds only with the kernel registration, the timeout, the record and the count undone',
    'count': 'the counts that keep a loop running are changed by registration and removal only',
    'access': 'the queries and setters of a registered descriptor report and change exactly what they name',
    'wait': 'a task that waits for a descriptor is registered before it gives up control, and is queued once when the '
            'descriptor is ready',
}
RULES = [update, dispatch, add, delete, count, access, wait]

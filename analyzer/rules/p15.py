"""P15: timers of an event loop (actors)."""
from rules.common import *
from lists import Lists, is_link, sh
from rules import p05
from rules.p05 import lname, loop_headers_set, when_src, narrow_mul, null_of, isf, due_fact, place_ok, skipped, alarm_form, \
    narrow_tests, CLOCK, _Sub

AL = 'alarmtime'
FREE = {'free', 'events_free'}
NEW = {'events_calloc': True, 'calloc': True, 'events_malloc': False, 'malloc': False, 'try_calloc': True, 'try_malloc': False}


def timers(fn):
    return any(i.op == 'store' and is_link(S(fn.ex(i.ops[1]))) and
               (mentions(fn.ex(i.ops[1]), lambda x: x[0] == 'fld' and (x[2] in ('actors_s', 'timerlist_s') or x[3] == 'timers')))
               for i in fn.instrs())


def count_delta(i, L, fn, E):
    """change an instruction makes to a loop's number of active timers"""
    if i.op != 'store':
        return None
    a = fn.ex(i.ops[1])
    if not field_of(a, 'active_timers'):
        return None
    A = L.ev(a, E)
    t, c = lin(L.ev(fn.ex(i.ops[0]), E))
    if len(t) == 1 and list(t.values()) == [1] and isload(list(t)[0], lambda y: S(y)[3:] == A[3:]):
        return c
    return 'set'


def one(R, fn):
    hs = loop_headers_set(fn)
    SK, PEND, FIRED = {}, [], []
    # x = (count change beyond the new and released timers, unused, unlinked node, its stage, repeating?, released, fields written, dereferenced, done)
    X0 = (0, 0, None, 0, None, False, frozenset(), frozenset(), False)

    def close(x, i, w):
        D, N, T, st, rep, fr, A, der, dn = x
        if T is None:
            return x
        R.cur = 'fire'
        if not st:
            R.bad(fn, i.where(), 'a timer is taken out of the list but its callback is not called', w.trace())
        elif rep is None:
            R.bad(fn, i.where(), 'a timer is left without a look at whether it repeats', w.trace())
        elif not rep and not fr:
            R.bad(fn, i.where(), 'a timer that does not repeat is not released', w.trace())
        else:
            R.ok('%s: fired, before %s' % (fn.name, i.where()))
        return (D, N, None, 0, None, False, A, der, True)

    def on_op(x, kind, ls, c, N_, P, first, i, w, s):
        if lname(ls) != 'timers' and not (kind == 'unlink' and c[0] in ('ld', 'load') and c[1][0] == 'fld' and
                                          c[1][3] in ('head', 'tail') and lname(c[1][1]) == 'timers'):
            return x
        R.cur = 'lists'
        R.ok('%s: %s at %s' % (fn.name, kind, i.where()))
        D, N, T, st, rep, fr, A, der, dn = x
        F = dict(s[3])
        if kind == 'unlink':
            x = close(x, i, w)
            D, N, T, st, rep, fr, A, der, dn = x
            R.cur = 'fire'
            if not (c[0] in ('ld', 'load') and c[1][0] == 'fld' and c[1][3] == 'head'):
                R.bad(fn, i.where(), 'the timers are not taken from the front', w.trace())
            d, now = due_fact(F, c, AL)
            if d is not True:
                R.bad(fn, i.where(), 'a timer fires before its time', w.trace())
            elif not when_src(fn, now):
                R.bad(fn, i.where(), 'a timer is compared with something else than the clock', w.trace())
            else:
                R.ok('%s: due at %s' % (fn.name, i.where()))
            FIRED.append(i)
            T, st, rep, fr = c, 0, None, False
        else:
            when = dict(y[1:] for y in A if y[0] == AL).get(c)
            R.cur = 'sorted'
            if when is None:
                R.bad(fn, i.where(), 'a timer is put into the list without a time', w.trace())
            else:
                PEND.append((i.where(), N_, P, when, s[3], w.trace()))
            R.cur = 'count'
            if c[0] == 'call' or c[0] == 'phi':
                D = None if D is None else D - 1
            A = A | {('in', c, ls)}
        return (D, N, T, st, rep, fr, A, der, dn)

    def step(x, i, w, s):
        D, N, T, st, rep, fr, A, der, dn = x
        E, F = dict(s[0]), dict(s[3])
        n = name(i)
        if i.op == 'load' and T is not None and T[0] == 'ld' and T[2] == i.dest:
            x = close(x, i, w)                  # the name stands for another timer from here on
            D, N, T, st, rep, fr, A, der, dn = x
        if i.op in ('load', 'store'):
            a = L.ev(fn.ex(i.ops[0] if i.op == 'load' else i.ops[1]), E)
            b = a
            while b[0] == 'fld':
                b = b[1]
            if b[0] == 'arg' and a[0] == 'fld':
                der = der | {b}
            if i.op == 'load' and T is not None and a == ('fld', T, None, 'repeating'):
                A = A - {('fresh', i.dest)}
                if st:
                    A = A | {('fresh', i.dest)}
            if fr and T is not None and b == T:
                R.cur = 'fire'
                R.bad(fn, i.where(), 'a timer is used after it was released', w.trace())
        if i.op == 'store':
            v = L.ev(fn.ex(i.ops[0]), E)
            d = count_delta(i, L, fn, E)
            if d == 'set':
                if v == ('int', 0):
                    D = None
                else:
                    R.cur = 'count'
                    R.bad(fn, i.where(), 'the number of active timers is overwritten', w.trace())
            elif d is not None and D is not None:
                D += d
            if a[0] == 'fld' and a[3] == AL:
                R.cur = 'alarm'
                R.check(narrow_mul(fn, i.ops[0]) is None, fn, i.where(), 'the time of a timer is computed in less than 64 bits',
                        None, w.trace())
                alarm_form(R, fn, i, v, w)
            if a[0] == 'fld' and a[3] in (AL, 'actor', 'args', 'loop', 'repeating') and fn.name.startswith('events_'):
                A = frozenset(y for y in A if y[:2] != (a[3], a[1])) | {(a[3], a[1], v)}
            if T is not None and a == ('fld', T, None, 'repeating') and st:
                rep = None if v[0] != 'int' else v[1] != 0
        elif i.op == 'call':
            c = i.attr.get('callee')
            if n is None and c is not None:
                ce = L.ev(fn.ex(c), E)
                if ce[0] in ('load', 'ld') and ce[1][0] == 'fld' and ce[1][3] == 'actor':
                    R.cur = 'fire'
                    args = [L.ev(fn.ex(o), E) for o in i.ops]
                    if T is None or ce[1][1] != T:
                        R.bad(fn, i.where(), 'the callback of a timer is called while it is still in the list', w.trace())
                    elif st:
                        R.bad(fn, i.where(), 'the callback of a timer is called twice', w.trace())
                    elif fr:
                        R.bad(fn, i.where(), 'the callback of a timer is called after its release', w.trace())
                    elif len(args) != 2 or args[0] != T or args[1] not in (('load', ('fld', T, None, 'args')),) and not (
                            args[1][0] == 'ld' and args[1][1] == ('fld', T, None, 'args')):
                        R.bad(fn, i.where(), 'the callback of a timer is not given the timer and its argument', w.trace())
                    else:
                        R.ok('%s: callback at %s' % (fn.name, i.where()))
                    st, rep = 1, None
            elif n in FREE and T is not None and L.ev(fn.ex(i.ops[0]), E) == T:
                R.cur = 'fire'
                if not st:
                    R.bad(fn, i.where(), 'a timer is released before its callback was called', w.trace())
                elif fr:
                    R.bad(fn, i.where(), 'a timer is released twice', w.trace())
                elif rep is not False:
                    R.bad(fn, i.where(), 'a timer is released although it may repeat', w.trace())
                else:
                    R.ok('%s: release at %s' % (fn.name, i.where()))
                fr = True
                D = None if D is None else D + 1
        return (D, N, T, st, rep, fr, A, der, dn)

    def edge(x, k, p, i, w, s):
        D, N, T, st, rep, fr, A, der, dn = x
        raw = [y[2] for y in walk(fn.ex(i.ops[0])) if y[0] == 'load' and field_of(y[1], 'repeating')]
        late = all(('fresh', d) in A for d in raw)      # read after the callback
        if k[0] == 'eq' and k[2] == ('int', 0):
            if k[1] in der and p:
                return None
            if T is not None and k[1] == T and p:
                return None
            if T is not None and isf(k[1], T, 'repeating') and st and late:
                rep = not p
        if k[0] == 'eq' and k[2] == ('int', 1) and T is not None and isf(k[1], T, 'repeating') and st and late and p:
            rep = True
        if k[0] in ('eq', 'lt') and mentions(k, lambda y: y[0] == 'call' and y[1] in CLOCK) and \
                (k[0] == 'eq' and k[2] == ('int', 0) and not p or k[0] == 'lt' and k[3] == ('int', 0) and p):
            return None
        return (D, N, T, st, rep, fr, A, der, dn)

    def ex(x, t, w, s):
        x = close(x, t, w)
        D, N, T, st, rep, fr, A, der, dn = x
        R.cur = 'count'
        if D:
            R.bad(fn, t.where(), 'the number of active timers does not follow the timers (%+d)' % D, w.trace())
        else:
            R.ok('%s: count at %s' % (fn.name, t.where()))
        E, F, K = dict(s[0]), dict(s[3]), dict(s[1])
        if fn.name in ('events_actor', 'events_repeat_actor'):
            R.cur = 'init'
            ins = [(y[1], y[2]) for y in A if y[0] == 'in']
            rv = L.ev(fn.ex(t.ops[0]), E) if t.ops else ('int', 0)
            if not ins:
                R.check(fn.name == 'events_actor' and rv == ('int', 0), fn, t.where(),
                        'a timer is not put into the list', None, w.trace())
            for c, ls in ins:
                get = lambda f: next((y[2] for y in A if y[0] == f and y[1] == c), None)
                while ls[0] in ('idx', 'load', 'ld') or ls[0] == 'fld' and ls[3] != 'timers':
                    ls = ls[1]
                lp = ls[1]
                own = lambda f, v: v is None or v[0] in ('load', 'ld') and v[1] == ('fld', c, None, f)
                if fn.name == 'events_actor':
                    good = get('actor') == ('arg', 2) and get('args') == ('arg', 3) and get('loop') == ('arg', 0) and \
                        lp == ('arg', 0) and rv == c and get('repeating') in (None, ('int', 0)) and \
                        (get('repeating') is not None or c[0] == 'call' and NEW.get(c[1]) or c[0] == 'phi')
                else:
                    good = c == ('arg', 0) and own('actor', get('actor')) and own('args', get('args')) and \
                        own('loop', get('loop')) and rv == c and own('loop', lp) and \
                        get('repeating') is not None and get('repeating')[0] == 'int' and get('repeating')[1] != 0
                R.check(good, fn, t.where(), 'a timer does not keep its callback, argument and loop, or is not the one handed out',
                        '%s: init at %s' % (fn.name, t.where()), w.trace())
        if fn.name == 'events_clear_actor':
            R.cur = 'init'
            R.check(('repeating', ('arg', 0), ('int', 0)) in A, fn, t.where(), 'events_clear_actor() leaves the timer repeating',
                    'events_clear_actor: %s' % t.where(), w.trace())
        if turn and not dn:
            R.cur = 'turn'
            rv = L.ev(fn.ex(t.ops[0]), E) if t.ops else None
            heads = [v for a, v in s[1] if a[3] == 'head' and lname(a[1]) == 'timers']
            seen = ('seen',) in A
            if rv is not None and rv[0] == 'int' and rv[1] < 0:
                pass
            else:
                R.check(seen, fn, t.where(), 'a turn of the loop ends although the first timer may be due',
                        '%s: turn ends at %s' % (fn.name, t.where()), w.trace())

    def edge2(x, k, p, i, w, s):
        x = edge(x, k, p, i, w, s)
        if x is None:
            return None
        # the first timer is looked at: there is none, or it is not due
        D, N, T, st, rep, fr, A, der, dn = x
        F = dict(s[3])
        for a, v in s[1]:
            if a[3] == 'head' and lname(a[1]) == 'timers' and (null_of(F, v) is True or due_fact(F, v, AL)[0] is False):
                A = A | {('seen',)}
        return (D, N, T, st, rep, fr, A, der, dn)

    def phi(x, ph, frm, w, s, ev):
        skipped(fn, SK, ph, frm, s, ev, AL)
        return x

    turn = False
    L = Lists(fn, _Sub(R, 'lists'), on_op, step=step, edge=edge2, exit=ex, phi=phi, extra=X0)
    L.run()
    if FIRED:
        turn = True
        L.run()
    whens = {x[3] for x in PEND}
    R.cur = 'sorted'
    for wh, N_, P, when, F, tr in PEND:
        R.check(place_ok(fn, dict(F), N_, when, whens, SK, AL), fn, wh, 'the timers are not kept in the order of their times',
                '%s: insert at %s' % (fn.name, wh), tr)


def actors(R):
    for k, t in TEXT:
        R.rule(k, t)
    m = R.prog.std()
    n = 0
    for fn in funcs(m):
        if timers(fn) or fn.name in ('events_clear_actor', 'events_actor', 'events_repeat_actor') or \
                any(i.op == 'store' and field_of(fn.ex(i.ops[1]), 'active_timers') for i in fn.instrs()):
            n += 1
            R.saw(fn)
            one(R, fn)
    R.cur = 'alarm'
    narrow_tests(R, m, AL)
    for nm in ('events_clear_actor', 'events_actor', 'events_repeat_actor'):
        m.fn(nm)
    for k in ('fire', 'sorted', 'alarm', 'turn', 'init', 'count'):
        R.cur = k
        R.floor(R.rules[k]['obligations'], 1, 'sites')


TEXT = [
    ('lists', 'the list of timers is only changed by complete operations and nothing is left half linked when control leaves '
              'or calls out'),
    ('fire', 'a timer is unlinked from the front only when its time has come; then its callback is called once with the timer '
             'and its argument; then it is released once if it does not repeat, and not otherwise'),
    ('count', 'the number of active timers goes up with every new timer, down with every released one, and not otherwise'),
    ('sorted', 'a timer is put behind all earlier and before all later ones'),
    ('alarm', 'the time of a timer is the clock plus the milliseconds asked for, in 64 bits'),
    ('init', 'a new timer gets the callback, argument and loop asked for; a repeated one keeps them and is marked as repeating; '
             'clearing removes the mark'),
    ('turn', 'a turn of the loop that does not fail fires a timer or has seen that the first one is not due'),
]
RULES = [actors]

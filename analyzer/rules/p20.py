"""P20: whatever a library function opens or allocates is released or handed on, once, on every path."""
from rules.common import *
from flow import *
from track import Track, Loop, root, nodest

TEXT = [
    ('open', 'a descriptor, stream, directory or address list a function opens is closed, given back or stored on every path'),
    ('heap', 'a block a function allocates is freed, given back, stored or handed on on every path'),
    ('twice', 'what was closed or freed is not used, closed or freed again'),
]
FDS = {'socket', 'accept', 'accept4', 'open', 'open64', 'creat', 'eventfd', 'inotify_init', 'inotify_init1', 'epoll_create', 'epoll_create1', 'dup', 'fs_open', 'timerfd_create', 'signalfd'}
STREAMS = {'fopen', 'fopen64', 'popen', 'fdopen', 'opendir', 'fs_fopen', 'tmpfile'}
BLOCKS = {'events_malloc', 'events_calloc', 'events_memalign', 'events_realloc', 'malloc', 'calloc', 'realloc', 'strdup'}
CLOSES = {'close': 0, 'fclose': 0, 'pclose': 0, 'closedir': 0, 'fs_close': 0, 'fs_fclose': 0, 'promise_fclose': 1, 'promise_pclose': 1, 'os_close': 0, 'inotify_close': 0, 'epoll_close': 0}
FREES = {'events_free': 0, 'free': 0}
KEEPFD = {'events_new_fd', 'fdopen', 'events_assign_fd'}
READS = {'fs_read', 'fs_write', 'fs_stat', 'fs_fstat', 'fs_fread', 'fs_fwrite', 'fs_fgets', 'fs_open', 'fs_unlink', 'async_read', 'async_write', 'readdir', 'sendto', 'recvfrom', 'bind', 'connect',
         'memcpy', 'memset', 'memmove', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'strcpy', 'strncpy', 'strcat', 'strncat', 'snprintf', 'sprintf', 'vsnprintf', 'fprintf', 'printf', 'perror',
         'strchr', 'strrchr', 'strstr', 'sscanf', 'atoi', 'strtol', 'strtoul', 'read', 'write', 'recv', 'send', 'fread', 'fwrite', 'stat', 'fstat', 'puts', 'fputs', 'strcasecmp', 'strerror',
         'strnlen', 'memchr', 'malloc_usable_size', 'pipe', 'pipe2', 'sigemptyset', 'sigaction', 'getcwd', 'realpath', 'inet_ntop', '__memcpy_chk', '__memset_chk', '__snprintf_chk'}
NEVER = re.compile(r'^llvm\.')


def start(R):
    for a, b in TEXT:
        R.rule(a, b)


def base_of(e):
    """what an address or a marked pointer was made from"""
    while True:
        if e[0] in ('fld', 'idx'):
            e = e[1]
        elif e[0] in ('trunc', 'zext', 'sext'):
            e = e[-1]
        elif e[0] == 'bin' and e[3][0] == 'int':
            e = e[2]
        else:
            return e


class Keeps:
    """does a function do more with a pointer parameter than look at what it points to"""
    def __init__(self, m, fd=False):
        self.m = m
        self.memo = {}
        self.fd = fd

    def __call__(self, n, k, only=False):
        if n is None:
            return not self.fd
        if self.fd:
            if n in KEEPFD or CLOSES.get(n) == k:
                return True
            if n not in self.m.fns:
                return False
            if not self.m.fns[n].internal:
                only = True
        if n in READS or NEVER.match(n):
            return False
        if n not in self.m.fns:
            return True
        if (n, k, only) in self.memo:
            return self.memo[n, k, only]
        self.memo[n, k, only] = False
        fn = self.m.fns[n].ensure()
        r = self._scan(fn, k, only)
        self.memo[n, k, only] = r
        return r

    def _scan(self, fn, k, only):
        if k >= len(fn.args):               # one of the further arguments; printing them keeps none
            return not any((name(i) or '').startswith(('vfprintf', 'vprintf', 'vsnprintf', 'vsprintf')) for i in fn.instrs())
        phis = set()
        ch = True
        def is_own(v):
            e = base_of(S(fn.ex(v)))
            if e[0] == 'select':
                return any(base_of(y) == ('arg', k) or base_of(y) in phis for y in e[1:] if isinstance(y, tuple))
            return e == ('arg', k) or e in phis
        while ch:
            ch = False
            for b in fn.order:
                for i in b.ins:
                    if i.op == 'phi' and ('phi', i.dest) not in phis and any(is_own(v) for v, _ in i.attr['inc']):
                        phis.add(('phi', i.dest))
                        ch = True
        for b in fn.order:
            for i in b.ins:
                if i.op == 'store' and is_own(i.ops[0]) and not only:
                    return True
                if i.op in ('atomicrmw', 'cmpxchg') and any(is_own(o) for o in i.ops[1:]):
                    return True
                if not self.fd and i.op == 'ret' and i.ops and is_own(i.ops[0]):
                    return True
                if i.op == 'call':
                    for j, o in enumerate(i.ops):
                        if isinstance(o, tuple) and is_own(o) and self(i.attr['name'], j, only):
                            return True
        return False


def acquires(n, more):
    return 'fd' if n in FDS else 'stream' if n in STREAMS else 'block' if n in BLOCKS else more.get(n)


def failed(T, kind, v):
    if kind == 'fd':
        for k in (('lt', 's', v, ('int', 0)), ('eq', v, ('int', -1)), ('lt', 's', v, ('int', 1))):
            if T.fact(k) is True:
                return True
        return T.fact(('lt', 's', ('int', -1), v)) is False or T.fact(('lt', 's', ('int', 0), v)) is False
    return T.null(v) is True


def carried(fn):
    """loops that go on with an acquired value or what replaced it: name -> headers"""
    heads = set(loop_headers(fn))
    out = {}
    frm = {}
    for b in fn.order:
        for i in b.ins:
            if i.op == 'phi':
                for v, p in i.attr['inc']:
                    frm.setdefault(base_of(S(fn.ex(v))), set()).add((i.dest, b.name))
    for b in fn.order:
        for i in b.ins:
            if i.op == 'call' and i.dest:
                todo, seen = [('call', name(i), i.dest)], set()
                while todo:
                    for d, h in frm.get(todo.pop(), ()):
                        if d not in seen:
                            seen.add(d)
                            todo.append(('phi', d))
                            if h in heads:
                                out.setdefault(i.dest, set()).add(h)
    return out


def listed(i):
    return name(i) in ('getaddrinfo', 'async_getaddrinfo') and len(i.ops) == 4 and i.dest


def run(fn, d, **kw):
    """follow every path, telling apart as much as is affordable"""
    mine = lambda q: isinstance(q, tuple) and mentions(q, lambda y: y[0] == 'call' and y[-1] == d)
    far = lambda q: mine(q) or isinstance(q, tuple) and mentions(q, lambda y: y[0] == 'arg')
    flag = lambda q: mine(q) or isinstance(q, tuple) and q[0] == 'eq' and q[2] == ('int', 0) and base_of(q[1])[0] == 'arg'
    for n, about in ((4000, far), (20000, flag), (60000, mine)):
        try:
            Track(fn, track_mem=lambda a: a[0] == 'alloca' or base_of(a)[0] == 'call' and base_of(a)[1] in BLOCKS, keep=lambda n, a: n in BLOCKS or n in FREES, about=about, limit=n, **kw).run()
            return
        except AnalysisBroken as e:
            if 'limit' not in str(e) or n == 60000:
                raise


def inside(e, w):
    """read from a record this function made"""
    return e[0] in ('ld', 'load') and base_of(e[1]) == w


def kept(R, fn, site, kind, keeps, takes, more, fresh=None):
    """one acquisition: on every path released, given back, stored or handed on"""
    v = ('call', name(site), site.dest)
    what = {'fd': 'the descriptor', 'stream': 'the stream', 'block': 'the block', 'list': 'the address list'}[kind]
    rule = 'heap' if kind == 'block' else 'open'
    headers = carried(fn).get(site.dest, ())
    out = set()

    def lost(T, i, msg, ok):
        if R is not None:
            R.cur = rule
            R.check(ok, fn, site.where(), msg, trace=T.trace())

    def gone(T):
        return T.null(v) is False if kind == 'list' else failed(T, kind, v)

    def step(x, i, T):
        if i is site:
            if x:
                lost(T, i, '%s opened or allocated before is lost' % what, gone(T))
            if kind == 'list' and root(T.ev(i.ops[3]))[0] != 'alloca':
                return False
            return True
        if not x:
            return x
        n = name(i)
        w, passed = (x[0], x[1]) if isinstance(x, tuple) else (None, False)
        if w and i.op == 'call':                # it lies in a record this function made
            for j, o in enumerate(i.ops):
                if isinstance(o, tuple) and base_of(T.ev(o)) == w:
                    if FREES.get(n) == j:
                        return True             # and the record is no more
                    if keeps(n, j):
                        passed = True
        if i.op == 'call':
            if kind == 'list':
                return n != 'freeaddrinfo'
            for j, o in enumerate(i.ops):
                if isinstance(o, tuple) and (base_of(T.ev(o)) == v or w and inside(T.ev(o), w)):
                    if w is None and n in ('events_realloc', 'realloc') or FREES.get(n) == j or CLOSES.get(n) == j or (takes if kind != 'block' else keeps)(n, j):
                        return False
        if i.op == 'store' and w and base_of(T.ev(i.ops[0])) == w:
            passed = True
        if i.op == 'store' and base_of(T.ev(i.ops[0])) == v:
            w = base_of(T.ev(i.ops[1]))
            return (w, False) if w[0] == 'call' and w[1] in BLOCKS and w != v else False
        if i.op in ('atomicrmw', 'cmpxchg') and any(base_of(T.ev(o)) == v for o in i.ops[1:]):
            return False
        return (w, passed) if w else x

    def back(x, h, again, T):
        return False if h in headers else x

    def ex(x, t, T, rv):
        if x:
            given = rv is not None and mentions(rv, lambda y: y == v or isinstance(x, tuple) and y == x[0])
            if isinstance(x, tuple) and x[1]:
                given = True                    # the record has become known to others
            lost(T, t, '%s is neither released nor handed on' % what, given or gone(T))
        if fresh is not None and rv is not None:
            if mentions(rv, lambda y: y == v):
                fresh.add(kind if x else None)
            elif not (rv[0] == 'int' and rv[1] in (0, -1) or rv[0] != 'int' and T.null(rv) is True or rv[0] == 'call' and acquires(rv[1], more)):
                fresh.add(None)
    run(fn, site.dest, step=step, back=back, exit=ex, x0=False)


def released(R, fn, site):
    """one release: what was released is not used after it"""
    n = name(site)
    k = CLOSES.get(n, FREES.get(n))
    freed = n in FREES
    homeb = {i.dest: b.name for b in fn.order for i in b.ins if i.dest}
    loops = {h: Loop(fn, h).body for h in loop_headers(fn)}
    R.cur = 'twice'

    def place(v):
        return nodest(v[1]) if v[0] in ('ld', 'load') and root(v[1])[0] not in ('alloca',) else None

    def same(x, e):
        b = base_of(e)
        return b == x[0] or x[1] is not None and place(b) == x[1]

    # x = (the value released, the place it was read from and is still in)
    def step(x, i, T):
        if i is site:
            v = T.ev(i.ops[k])
            if x and same(x, v) and base_of(v) == v:
                R.bad(fn, i.where(), 'what was released is released again', T.trace())
            return (v, place(v)) if v[0] in ('call', 'ld', 'arg', 'load') else ()
        if not x:
            return x
        if i.op == 'call':
            m = name(i)
            for j, o in enumerate(i.ops):
                if not isinstance(o, tuple):
                    continue
                a = T.ev(o)
                if freed:
                    R.check(not same(x, a) or (m or '').startswith('llvm.'), fn, i.where(), 'what was freed is used', trace=T.trace())
                else:
                    R.check(not (CLOSES.get(m) == j and same(x, a)), fn, i.where(), 'what was closed is closed again', trace=T.trace())
            if i.dest and x[0] == ('call', m, i.dest):
                return ()
            if not (m in READS or m in FREES or m in CLOSES or (m or '').startswith('llvm.')):
                return (x[0], None)
        if i.op == 'store' and x[1] is not None and nodest(T.ev(i.ops[1])) == x[1]:
            x = (x[0], None)
        if freed and i.op in ('store', 'load'):
            a = T.ev(i.ops[1 if i.op == 'store' else 0])
            R.check(not same(x, a), fn, i.where(), 'what was freed is %s' % ('written to' if i.op == 'store' else 'read'), trace=T.trace())
        return x

    def back(x, h, again, T):
        if x and again and mentions(x[0], lambda y: isinstance(y[-1], str) and homeb.get(y[-1]) in loops.get(h, ())):
            return ()
        return x

    def ex(x, t, T, rv):
        if x and freed and rv is not None:
            R.check(not same(x, rv) or T.null(x[0]) is True, fn, t.where(), 'what was freed is given back', trace=T.trace())
        elif x:
            R.ok('%s: %s' % (fn.name, site.where()))
    run(fn, None, step=step, back=back, exit=ex, x0=())


def sweep(R):
    R.cur = 'open'
    m = R.prog.base()
    keeps = Keeps(m)
    takes = Keeps(m, True)
    more = {}
    fl = [fn for fn in funcs(m) if fn.name not in BLOCKS | STREAMS | FDS]
    while True:
        n = len(more)
        for fn in fl:
            if fn.name not in more:
                fr = set()
                for i in fn.instrs():
                    kind = acquires(name(i), more)
                    if kind and i.dest:
                        kept(None, fn, i, kind, keeps, takes, more, fr)
                if len(fr) == 1 and None not in fr:
                    more[fn.name] = fr.pop()
        if len(more) == n:
            break
    R.more = more
    got = gave = 0
    for fn in fl:
        R.saw(fn)
        for i in fn.instrs():
            kind = acquires(name(i), more)
            if kind and i.dest:
                got += 1
                kept(R, fn, i, kind, keeps, takes, more)
            elif listed(i):
                got += 1
                kept(R, fn, i, 'list', keeps, takes, more)
            if name(i) in CLOSES or name(i) in FREES:
                gave += 1
                released(R, fn, i)
    R.floor(got, 30, 'places that open or allocate')
    R.floor(gave, 40, 'places that close or free')


RULES = [start, sweep]

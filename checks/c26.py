"""C26: the pty layer: ring buffer, dispatching, descriptors."""
from tsa import load
from tsa.engine import *
from tsa.num import *
from .common import Check as _C
from .ops import pool

RULE = ('ring: every operation is interpreted on an arbitrary ring (every power-of-two size, arbitrary start and fill) and the byte found at '
        'an arbitrary index of the queue after it is traced through the copies made to the byte it must be; dispatch: every result of the '
        'system calls, the pieces handed to writev are the queue in order, exactly the bytes accepted leave it, every block read is '
        'delivered once before the buffer is reused and unfinished work is reported; descriptors and memory: every path of open, close, '
        'ref, unref and the bridge closes and releases everything exactly once')
KINDS = ('null', 'uaf', 'free', 'bounds', 'uninit', 'undef')
EINTR, EAGAIN = 4, 11
MAXLEN = 1 << 47                 # objects are no larger than the address space
FIELDS = ('buf', 'size', 'start', 'used')


def fork(st, lin):
    """states where lin >= 0 and where it is not"""
    out = []
    for l in (lin, laddk(lscale(lin, -1), -1)):
        s = st.clone()
        try:
            s.assume(l)
        except (Infeasible, Dead):
            s = None
        out.append(s)
    return out


class Ring:
    """an engine with one arbitrary ring of a given size"""

    def __init__(self, mod, size, holder=None, base=0):
        self.m = mod
        e = self.e = Engine(mod)
        e.masks = True
        e.trace_alloc = True
        e.alloc_fail = True
        e.peel = e.unroll = 32
        e.maxstates = 10 ** 6
        e.on_copy = lambda e, st, x, d, s, n: st.ev(('copy', d, s, n))
        e.stubs['llvm.ctlz.i64'] = self.ctlz
        self.st = st = e.new_state()
        self.off = {f: base + mod.member('shl_ring', f)['off'] for f in FIELDS}
        self.o = holder(e) if holder else e.newobj('ring', 'arg', lc(32), None, 'lazy')
        self.size = size
        self.i0 = None
        if size:
            self.buf = e.newobj('buffer', 'heap', lc(size), None, 'opaque')
            self.start = ls(e.S.fresh(64, 'start', 0, size - 1))
            self.used = ls(e.S.fresh(64, 'used', 0, size))
        else:
            self.buf, self.start, self.used = None, lc(0), lc(0)
        self.put(st, 'buf', Ptr(self.buf.id) if size else NULL)
        for f, v in (('size', lc(size)), ('start', self.start), ('used', self.used)):
            self.put(st, f, Int(64, v))
        self.p = Ptr(self.o.id, lc(base)) if base else Ptr(self.o.id)

    def put(self, st, f, v):
        self.e.store_const(st, self.o, self.off[f], v, 8)

    def ctlz(self, e, st, x, a):
        u = e.norm_u(st, a[0])
        out = []
        for b in range(0, 65):
            s = st.clone()
            try:
                s.assume(laddk(u, -(1 << (b - 1)) if b else 0))
                s.assume(laddk(lscale(u, -1), (1 << b) - 1))
            except (Infeasible, Dead):
                continue
            out.append((s, Int(64, lc(64 - b))))
        return out

    def fields(self, st):
        v = {}
        for f in FIELDS:
            x = self.e.load_const(st, self.o, self.off[f], ('p',) if f == 'buf' else ('i', 64), 8, None)
            v[f] = self.e.resolve(st, x) if f == 'buf' else self.e.norm_u(st, x) if isinstance(x, Int) else None
        return v

    # ---- where is byte i of the queue
    def location(self, st, start, size, i):
        """[(state, offset)]; size is a constant"""
        a = ladd(start, i)
        wrap, flat = fork(st, laddk(a, -size))
        return [(s, l) for s, l in ((flat, a), (wrap, laddk(a, -size))) if s is not None]

    def trace(self, st, copies, o, off):
        """the byte at (o, off) after the copies: [(state, object, offset)] of the original byte"""
        for k in range(len(copies) - 1, -1, -1):
            _, d, s, n = copies[k]
            if d is None or self.e.objs[d.o].id != o:
                continue
            above, below = fork(st, lsub(off, d.l))
            out = [] if below is None else self.trace(below, copies[:k], o, off)
            if above is not None:
                beyond, inside = fork(above, lsub(lsub(off, d.l), n))
                if beyond is not None:
                    out += self.trace(beyond, copies[:k], o, off)
                if inside is not None:
                    if s is None:
                        out.append((inside, None, None))
                    else:
                        out += self.trace(inside, copies[:k], self.e.objs[s.o].id, ladd(s.l, lsub(off, d.l)))
            return out
        return [(st, o, off)]

    def index(self, st, n):
        """an arbitrary index below n; None when there is none"""
        i = ls(self.e.S.fresh(64, 'i', 0, 1 << 62))
        s = st.clone()
        try:
            s.assume(laddk(lsub(n, i), -1))
        except (Infeasible, Dead):
            return None, None
        return s, i

    def invariant(self, r, st, v, what, copies=()):
        k = st.const(v['size']) if v['size'] is not None else None
        if not r.ob('ring stays sound', k is not None and v['start'] is not None and v['used'] is not None, what, what + ': the size is undetermined'):
            return None
        if k == 0:
            ok = v['buf'] is NULL or v['buf'] == NULL
            return k if r.ob('ring stays sound', ok and st.proveq(v['used'], lc(0)) and st.proveq(v['start'], lc(0)), what, what + ': an empty ring with a buffer or a fill level') else None
        r.ob('ring stays sound', k & (k - 1) == 0, what, what + ': the size is no power of two')
        p = v['buf']
        ok = isinstance(p, Ptr) and p.o not in st.freed and st.proveq(p.l, lc(0)) and self.e.objs[p.o].size is not None and \
            st.prove(lsub(self.e.objs[p.o].size, lc(k)))
        r.ob('ring stays sound', ok, what, what + ': the buffer is released or smaller than the ring')
        r.ob('ring stays sound', st.prove(laddk(lscale(v['start'], -1), k - 1)) and st.prove(v['start']), what, what + ': the start is outside the buffer')
        r.ob('ring stays sound', st.prove(laddk(lscale(v['used'], -1), k)) and st.prove(v['used']), what, what + ': more bytes than the buffer holds')
        return k if ok else None

    def same(self, st, o, off, want):
        """want: (object, offset)"""
        return o is not None and o == want[0] and st.proveq(off, want[1])

    def queue(self, r, st, what, total, want):
        """every byte of the queue is the one `want` yields: want(state, i) -> [(state, (object, offset))]"""
        v = self.fields(st)
        k = self.invariant(r, st, v, what)
        if k is None:
            return
        r.ob('fill level', st.proveq(v['used'], total), what, lambda: what + ': the number of queued bytes is wrong')
        copies = [q for q in st.events() if q[0] == 'copy']
        s, i = self.index(st, total)
        if s is None or not k:
            r.ob('queued bytes', True)
            return
        for s1, off in self.location(s, v['start'], k, i):
            for s2, o, x in self.trace(s1, copies, v['buf'].o, off):
                for s3, w in want(s2, i):
                    r.count('queue positions traced')
                    r.ob('queued bytes', self.same(s3, o, x, w), what, lambda: what + ': a byte of the queue is not the one it must be')

    def old(self, st, i):
        """byte i of the queue before the call"""
        if not self.size:
            return []
        return [(s, (self.buf.id, off)) for s, off in self.location(st, self.start, self.size, i)]

    def seq(self, st, i, pushed):
        """byte i of the old queue followed by what was pushed: [(object, length)]"""
        new, was = fork(st, lsub(i, self.used))
        out = [] if was is None else self.old(was, i)
        x = lsub(i, self.used)
        for o, n in pushed:
            if new is None:
                return out
            new, was = fork(new, lsub(x, n))
            if was is not None:
                out.append((was, (o, x)))
            x = lsub(x, n)
        return out

    def unchanged(self, r, st, what):
        v = self.fields(st)
        ok = (v['buf'] == Ptr(self.buf.id) if self.size else v['buf'] == NULL) and st.proveq(v['size'], lc(self.size)) and \
            st.proveq(v['start'], self.start) and st.proveq(v['used'], self.used)
        touched = [q for q in st.events() if q[0] == 'copy' and self.buf is not None and q[1].o == self.buf.id]
        r.ob('ring untouched', ok and not touched and (self.buf is None or self.buf.id not in st.freed), what, what + ': the ring is changed')

    def leaks(self, r, st, what, keep=()):
        v = self.fields(st)
        live = [q[1] for q in st.events() if q[0] == 'alloc' and q[1] not in st.freed]
        cur = v['buf'].o if isinstance(v['buf'], Ptr) else None
        r.ob('one buffer', all(o == cur for o in live), what, what + ': a buffer is lost')
        if self.buf is not None and cur != self.buf.id:
            r.ob('one buffer', self.buf.id in st.freed, what, what + ': the old buffer is lost')


def sizes(th):
    return [0] + [1 << k for k in range(0, 41)]


def ring_op(r, job):
    op, size = job
    mod = load.module('pty')
    R = Ring(mod, size)
    e, st = R.e, R.st
    n = ls(e.S.fresh(64, 'n', 0, MAXLEN))
    what = 'shl_ring_%s() with a buffer of %d bytes' % (op, size)
    r.count('ring cases')
    if op == 'push':
        src = e.newobj('data', 'arg', n, None, 'opaque')
        outs = e.run('shl_ring_push', [R.p, Ptr(src.id), Int(64, n)], st)
        done = 0
        for s, ret in outs:
            ret = e.norm_s(s, ret)
            failed, ok = s.prove(laddk(lscale(ret, -1), -1)), s.proveq(ret, lc(0))
            r.ob('result', ok or failed, what, what + ': the result is neither success nor failure')
            oom = any(q[0] == 'allocfail' for q in s.events())
            if failed:
                r.ob('fails only without memory', oom, what, what + ': fails although memory was available')
                R.unchanged(r, s, what + ' when it fails')
                R.leaks(r, s, what)
                continue
            done += 1
            r.ob('failure is reported', not oom, what, what + ': reports success although memory was missing')
            R.leaks(r, s, what)

            R.queue(r, s, what, ladd(R.used, n), lambda t, i: R.seq(t, i, [(src.id, n)]))
        r.ob('succeeds', done > 0, what, what + ': never succeeds')
    elif op == 'pull':
        for s, _ in e.run('shl_ring_pull', [R.p, Int(64, n)], st):
            for t, m in least(s, n, R.used):
                R.queue(r, t, what, lsub(R.used, m), lambda t, i, m=m: R.old(t, ladd(i, m)))
                R.leaks(r, t, what)
    elif op == 'copy':
        dst = e.newobj('destination', 'arg', n, None, 'opaque')
        for s, ret in e.run('shl_ring_copy', [R.p, Ptr(dst.id), Int(64, n)], st):
            R.unchanged(r, s, what)
            for t, m in least(s, n, R.used):
                r.ob('result', t.proveq(e.norm_u(t, ret), m), what, what + ': the result is not the number of bytes copied')
                copies = [q for q in t.events() if q[0] == 'copy']
                u, i = R.index(t, m)
                if u is None or not size:
                    continue
                for t2, o, x in R.trace(u, copies, dst.id, i):
                    for t3, w in R.old(t2, i):
                        r.count('queue positions traced')
                        r.ob('copied bytes', R.same(t3, o, x, w), what, what + ': a byte copied is not that of the queue')
    elif op == 'peek':
        for s, k, vec, ret in peeked(R, st):
            R.unchanged(r, s, what)
            pieces(r, R, s, vec, k, what, 0)
        for s, ret in e.run('shl_ring_peek', [R.p, NULL], R.st.clone()):
            R.unchanged(r, s, what)
    elif op in ('flush', 'clear'):
        for s, _ in e.run('shl_ring_' + op, [R.p], st):
            v = R.fields(s)
            R.invariant(r, s, v, what)
            r.ob('fill level', v['used'] is not None and s.proveq(v['used'], lc(0)), what, what + ': the ring is not empty')
            R.leaks(r, s, what)
            if op == 'clear':
                r.ob('one buffer', v['buf'] == NULL, what, what + ': the buffer is kept')
    if op in ('pull', 'peek', 'flush', 'copy'):
        r.ob('returns', True)
    r.engine(e, KINDS)


def least(st, a, b):
    """min(a, b)"""
    big, small = fork(st, lsub(a, b))
    return [(s, l) for s, l in ((big, b), (small, a)) if s is not None]


def read_vec(R, st, p, k):
    out = []
    o = R.e.objs[p.o]
    b = st.const(p.l)
    for i in range(k):
        q = R.e.resolve(st, R.e.load_const(st, o, b + 16 * i, ('p',), 8, None))
        n = R.e.load_const(st, o, b + 16 * i + 8, ('i', 64), 8, None)
        if not isinstance(q, Ptr) or not isinstance(n, Int):
            return None
        out.append((q, R.e.norm_u(st, n)))
    return tuple(out)


def peeked(R, st):
    e = R.e
    vec = e.newobj('vec', 'arg', lc(32), None, 'undef')
    for s, ret in e.run('shl_ring_peek', [R.p, Ptr(vec.id)], st.clone()):
        k = s.const(e.norm_u(s, ret))
        yield s, k, read_vec(R, s, Ptr(vec.id), k) if k in (1, 2) else [], ret


def pieces(r, R, s, vec, k, what, sent, pushed=(), copies=None):
    """the vector is the whole queue (after `sent` bytes left it)"""
    total = lsub(R.used, sent) if isinstance(sent, tuple) else R.used
    for _, n in pushed:
        total = ladd(total, n)
    sent = sent if isinstance(sent, tuple) else lc(0)
    if not r.ob('whole queue', k is not None and 0 <= k <= 2 and vec is not None, what, what + ': the number of pieces is undetermined'):
        return
    t = lc(0)
    for _, n in vec:
        t = ladd(t, n)
    r.ob('whole queue', s.proveq(t, total), what, what + ': the pieces are not as long as the queue')
    u, i = R.index(s, total)
    if u is None:
        return
    if copies is None:
        copies = [q for q in s.events() if q[0] == 'copy']
    todo = [(u, i, list(vec))]
    while todo:
        u, x, rest = todo.pop()
        if not rest:
            r.ob('pieces in order', False, what, what + ': a byte of the queue is in no piece')
            continue
        q, n = rest[0]
        beyond, inside = fork(u, lsub(x, n))
        if beyond is not None:
            todo.append((beyond, lsub(x, n), rest[1:]))
        if inside is not None:
            for t2, o, y in R.trace(inside, copies, q.o, ladd(q.l, x)):
                for t3, w in R.seq(t2, ladd(i, sent), pushed):
                    r.count('queue positions traced')
                    r.ob('pieces in order', R.same(t3, o, y, w), what, what + ': a piece is not the part of the queue it must be')


# ---------------------------------------------------------------- pty
class Pty:
    FD = 100

    def __init__(self, mod, size, open_=True, cb=True, ref=None):
        self.m = mod
        base = mod.member('shl_pty', 'out_buf')['off']

        def holder(e):
            # any size that holds all members
            last = max(m['off'] + m['size'] for m in mod.members('shl_pty').values())
            return e.newobj('pty', 'heap', lc((last + 7) // 8 * 8), None, 'lazy')
        R = self.R = Ring(mod, size, holder, base)
        e, st = R.e, R.st
        self.e, self.st, self.p = e, st, Ptr(R.o.id)
        self.set(st, 'fd', Int(32, lc(self.FD if open_ else -1)))
        self.ref = lc(ref) if ref is not None else ls(e.S.fresh(64, 'ref', 1, 1 << 32))
        self.set(st, 'ref', Int(64, self.ref))
        self.child = ls(e.S.fresh(32, 'child', 1, 1 << 30))
        self.set(st, 'child', Int(32, self.child))
        self.cb = PSym(e.newpsym('fn_input', False)) if cb else NULL
        self.data = e.newobj('user data', 'opaque', None, None, 'opaque')
        self.set(st, 'fn_input', self.cb)
        self.set(st, 'fn_input_data', Ptr(self.data.id))
        self.errno = e.newobj('errno', 'arg', lc(4), None, 'lazy')
        e.store_const(st, self.errno, 0, Int(32, lc(0)), 4)
        e.stubs['__errno_location'] = lambda e, st, x, a: [(st, Ptr(self.errno.id))]
        e.callback = self.callback
        self.action = None
        syscalls(self)

    def set(self, st, f, v):
        m = self.m.member('shl_pty', f)
        self.e.store_const(st, self.R.o, m['off'], v, m['size'])

    def get(self, st, f):
        m = self.m.member('shl_pty', f)
        return self.e.resolve(st, self.e.load_const(st, self.R.o, m['off'], ('i', m['size'] * 8) if f in ('fd', 'ref', 'child') else ('p',), m['size'], None))

    def callback(self, st, x, name, vals):
        st.ev(('cb', name, tuple(vals)))
        if callable(self.action):
            return [(s, None) for s in self.action(st)]
        return [(st, None)]

    def fail(self, st, codes=(EINTR, EAGAIN, None)):
        """the call returns -1 with every errno"""
        out = []
        for c in codes:
            s = st.clone()
            if c is None:
                y = self.e.S.fresh(32, 'errno', 1, 4095)
                s.set_dom(y, ((1, 3), (5, 10), (12, 4095)))
                self.e.store_const(s, self.errno, 0, Int(32, ls(y)), 4)
            else:
                self.e.store_const(s, self.errno, 0, Int(32, lc(c)), 4)
            out.append((s, c))
        return out


def num(e, st, v):
    return st.const(e.norm_s(st, v)) if isinstance(v, Int) else None


def syscalls(P):
    e = P.e

    def read(e, st, x, a):
        fd, p, n = num(e, st, a[0]), e.resolve(st, a[1]), e.norm_u(st, a[2])
        out = []
        e.check_bounds(st, p, 0, x, 'read', n)
        for s, c in P.fail(st):
            s.ev(('read', fd, p, n, None, c or 'error'))
            out.append((s, Int(64, lc(-1))))
        s = st.clone()
        s.ev(('read', fd, p, n, lc(0), None))
        out.append((s, Int(64, lc(0))))
        s = st.clone()
        k = e.S.fresh(64, 'got', 1, 1 << 40)
        try:
            s.assume(lsub(n, ls(k)))
            s.ev(('read', fd, p, n, ls(k), None))
            out.append((s, Int(64, ls(k))))
        except Infeasible:
            pass
        return out

    def writev(e, st, x, a):
        fd, p, k = num(e, st, a[0]), e.resolve(st, a[1]), num(e, st, a[2])
        vec = read_vec(P.R, st, p, k) if k in (0, 1, 2) and isinstance(p, Ptr) else None
        out = []
        for s, c in P.fail(st):
            s.ev(('writev', fd, vec, None, c or 'error'))
            out.append((s, Int(64, lc(-1))))
        s = st.clone()
        s.ev(('writev', fd, vec, lc(0), None))
        out.append((s, Int(64, lc(0))))
        if vec:
            total = lc(0)
            for q, n in vec:
                e.check_bounds(st, q, 0, x, 'writev', n)
                total = ladd(total, n)
            s = st.clone()
            k = e.S.fresh(64, 'sent', 1, 1 << 48)
            try:
                s.assume(lsub(total, ls(k)))
                s.ev(('writev', fd, vec, ls(k), None))
                out.append((s, Int(64, ls(k))))
            except Infeasible:
                pass
        return out

    def simple(name, fails=True):
        def f(e, st, x, a):
            vals = tuple(num(e, st, v) if isinstance(v, Int) else v for v in a)
            out = []
            if fails:
                for s, c in P.fail(st, (None, EINTR)):
                    s.ev(('sys', name, vals, 'fails'))
                    out.append((s, Int(x.ty[1], lc(-1))))
            s = st.clone()
            s.ev(('sys', name, vals, 'ok'))
            out.append((s, Int(x.ty[1], lc(0))))
            return out
        e.stubs[name] = f
    e.stubs['read'], e.stubs['writev'] = read, writev
    for n in ('epoll_ctl', 'ioctl'):
        simple(n)
    simple('close', False)


def events(s, *kinds):
    return [q for q in s.events() if q[0] in kinds]


def dispatch(r, job):
    fn, size, cb, action = job
    mod = load.module('pty')
    P = Pty(mod, size, cb=cb)
    e, R, st = P.e, P.R, P.st
    r.count('dispatch cases')
    if action == 'close':
        P.action = lambda t: [z for z, _ in e.run('shl_pty_close', [P.p], t)]
    elif action == 'push':
        def push(t):
            n = ls(e.S.fresh(64, 'n', 0, 100))
            src = e.newobj('answer', 'arg', n, None, 'opaque')
            for z, ret in e.run('shl_pty_write', [P.p, Ptr(src.id), Int(64, n)], t):
                if z.proveq(e.norm_s(z, ret), lc(0)):
                    z.ev(('pushed', src.id, n))
                yield z
        P.action = push
    what = '%s() with a queue of %d bytes%s' % (fn, size, {None: '', 'close': ', closed by the callback', 'push': ', the callback writes'}[action])
    BR = 7
    args = [P.p] if fn == 'shl_pty_dispatch' else [Int(32, lc(BR)), P.p]
    outs = e.run(fn, args, st)
    r.ob('returns', bool(outs), what, what + ' never returns')
    for s, ret in outs:
        r.count('dispatch paths')
        ev = s.events()
        closed = any(q[0] == 'sys' and q[1] == 'close' for q in ev)
        sent = lc(0)
        lastread = lastwrite = None
        pending = None
        pushed = []
        for at, q in enumerate(ev):
            if q[0] == 'pushed':
                pushed.append(q[1:])
            if q[0] in ('read', 'writev'):
                now = -1 if action == 'close' and any(z[0] == 'cb' for z in ev[:at]) else P.FD
                r.ob('own descriptor', q[1] == now or q[1] == -1, what, lambda: what + ': uses descriptor %s' % q[1])
            if q[0] == 'read':
                r.ob('delivered before the next read', pending is None, what, what + ': data read is overwritten before it is delivered')
                lastread = q
                pending = q if cb and q[4] is not None and q[4] != lc(0) else None
            elif q[0] == 'cb':
                a = q[2]
                ok = pending is not None and len(a) == 4 and a[0] == P.p and isinstance(a[1], Ptr) and a[1].o == P.data.id and \
                    isinstance(a[2], Ptr) and a[2].o == pending[2].o and s.proveq(a[2].l, pending[2].l) and s.proveq(e.norm_u(s, a[3]), pending[4])
                r.ob('delivered once, exactly', ok, what, what + ': the callback does not get exactly the bytes read')
                pending = None
            elif q[0] == 'writev':
                pieces_at(r, R, s, q, what, sent, pushed, ev[:at])
                lastwrite = q
                if q[3] is not None:
                    sent = ladd(sent, q[3])
        r.ob('everything read is delivered', pending is None, what, what + ': data read is not delivered')
        left = lsub(R.used, sent)
        for _, n in pushed:
            left = ladd(left, n)
        R.queue(r, s, what, left, lambda t, i: R.seq(t, ladd(i, sent), pushed))
        R.leaks(r, s, what)
        k = num(e, s, ret)
        again = any(q[0] == 'sys' and q[1] == 'epoll_ctl' for q in ev)
        # work left over
        more_in = lastread is not None and (lastread[5] == EINTR or lastread[5] is None and lastread[4] != lc(0))
        bad_in = lastread is not None and (lastread[5] == 'error' or lastread[4] == lc(0))
        empty = s.proveq(left, lc(0))
        some = s.prove(laddk(left, -1))
        more_out = lastwrite is not None and some and (lastwrite[4] == EINTR or lastwrite[4] is None and lastwrite[3] != lc(0))
        if lastread is None:
            r.ob('reads', False, what, what + ': never reads')
        if lastwrite is None:
            r.ob('writes', empty, what, what + ': queued bytes are not written')
        if fn == 'shl_pty_dispatch':
            rl = e.norm_s(s, ret)
            if more_in or more_out and not bad_in:
                r.ob('unfinished work is reported', k == -EAGAIN, what, lambda: what + ': returns %s with %s left' % (
                    k, 'input' if more_in else 'output'))
            elif bad_in:
                r.ob('errors are reported', s.prove(laddk(lscale(rl, -1), -1)) and k != -EAGAIN, what, what + ': an error of the descriptor is not reported')
            else:
                r.ob('no needless round', k == 0 or k != -EAGAIN and lastwrite is not None and (lastwrite[4] == 'error' or lastwrite[3] == lc(0)), what, lambda: what + ': returns %s with nothing left' % k)
        else:
            calls = [q for q in ev if q[0] == 'sys' and q[1] == 'epoll_ctl']
            if (more_in or more_out and not bad_in) and not closed:
                ops = [q[2][1] for q in calls]
                r.ob('rearmed', ops in ([3], [2, 1]), what, lambda: what + ': unfinished work is not announced again (operations %s)' % ops)
            for q in calls:
                r.ob('right descriptor', q[2][0] == BR and q[2][2] in (P.FD,) or closed, what, lambda: what + ': another descriptor is changed')
                event(r, P, s, q, what)
    r.engine(e, KINDS)


def event(r, P, s, q, what):
    if q[2][1] not in (1, 3):
        return
    p = q[2][3]
    e = P.e
    if not isinstance(p, Ptr):
        return r.ob('event registered', False, what, what + ': registers no event')
    o = e.objs[p.o]
    b = s.const(p.l)
    ev = e.load_const(s, o, b, ('i', 32), 4, None)
    d = e.resolve(s, e.load_const(s, o, b + 4, ('p',), 8, None))
    k = s.const(e.norm_u(s, ev)) if isinstance(ev, Int) else None
    r.ob('event registered', k is not None and k & 5 == 5 and k >> 31 & 1 == 1 and d == P.p, what,
         lambda: what + ': the event registered is %s for %s' % (k, d))


def pieces_at(r, R, s, q, what, sent, pushed, before):
    vec = q[2]
    if not r.ob('whole queue', vec is not None, what, what + ': the pieces written are undetermined'):
        return
    pieces(r, R, s, vec, len(vec), what + ' writing', sent, pushed, [z for z in before if z[0] == 'copy'])


def basics(r, job):
    """the small operations on an open and a closed pty"""
    mod = load.module('pty')
    for open_ in (True, False):
        P = Pty(mod, 4096, open_=open_)
        e, R, st = P.e, P.R, P.st
        name = 'an open pty' if open_ else 'a closed pty'
        n = ls(e.S.fresh(64, 'n', 0, MAXLEN))
        src = e.newobj('data', 'arg', n, None, 'opaque')
        for fn, args in (('shl_pty_write', [P.p, Ptr(src.id), Int(64, n)]), ('shl_pty_signal', [P.p, Int(32, lc(2))]),
                         ('shl_pty_resize', [P.p, Int(16, lc(80)), Int(16, lc(24))]), ('shl_pty_dispatch', [P.p]),
                         ('shl_pty_bridge_add', [Int(32, lc(7)), P.p])):
            what = '%s() on %s' % (fn, name)
            outs = e.run(fn, args, st.clone())
            r.ob('returns', bool(outs), what, what + ' never returns')
            for s, ret in outs:
                r.count('small operations')
                sy = events(s, 'sys', 'read', 'writev')
                rl = e.norm_s(s, ret)
                if not open_:
                    r.ob('closed ptys are left alone', not sy and s.prove(laddk(lscale(rl, -1), -1)), what, lambda: what + ': %s' % (sy or 'succeeds'))
                    R.unchanged(r, s, what)
                    continue
                if fn == 'shl_pty_write':
                    r.ob('writing queues', not sy, what, lambda: what + ': %s' % sy)
                    if s.proveq(rl, lc(0)):
                        R.queue(r, s, what, ladd(R.used, n), lambda t, i: R.seq(t, i, [(src.id, n)]))
                    else:
                        R.unchanged(r, s, what)
                elif fn != 'shl_pty_dispatch':
                    R.unchanged(r, s, what)
                    bad = any(q[-1] == 'fails' for q in sy)
                    r.ob('result', s.proveq(rl, lc(0)) if not bad else s.prove(laddk(lscale(rl, -1), -1)), what, what + ': the result is wrong')
                    if fn == 'shl_pty_bridge_add':
                        r.ob('registered', len(sy) == 1 and sy[0][1] == 'epoll_ctl' and sy[0][2][:3] == (7, 1, P.FD), what, lambda: what + ': %s' % sy)
                        event(r, P, s, sy[0], what)
                    else:
                        r.ob('own descriptor', all(q[2][0] == P.FD for q in sy) and len(sy) == 1, what, lambda: what + ': %s' % sy)
        for fn, args in (('shl_pty_is_open', [P.p]), ('shl_pty_get_fd', [P.p]), ('shl_pty_get_child', [P.p])):
            what = '%s() on %s' % (fn, name)
            for s, ret in e.run(fn, args, st.clone()):
                v = e.norm_s(s, ret) if fn != 'shl_pty_is_open' else e.norm_u(s, ret)
                ok = {'shl_pty_is_open': s.const(v) == int(open_), 'shl_pty_get_fd': s.const(v) == (P.FD if open_ else -32),
                      'shl_pty_get_child': s.proveq(v, P.child)}[fn]
                r.ob('result', ok, what, what + ': the result is wrong')
                R.unchanged(r, s, what)
        # remove: only DEL of the own descriptor, and nothing when closed
        what = 'shl_pty_bridge_remove() on ' + name
        for s, _ in e.run('shl_pty_bridge_remove', [Int(32, lc(7)), P.p], st.clone()):
            sy = events(s, 'sys')
            r.ob('unregistered', [q[2][:3] for q in sy] == ([(7, 2, P.FD)] if open_ else []), what, lambda: what + ': %s' % sy)
        # closing, twice
        what = 'shl_pty_close() on ' + name
        for s, _ in e.run('shl_pty_close', [P.p], st.clone()):
            for t, _ in e.run('shl_pty_close', [P.p], s.clone()):
                cl = [q[2][0] for q in events(t, 'sys') if q[1] == 'close']
                r.ob('closed once', cl == ([P.FD] if open_ else []), what, lambda: what + ': closes %s' % cl)
                r.ob('closed once', num(e, t, P.get(t, 'fd')) == -1, what, what + ': still open')
        r.engine(e, KINDS)
    # references
    for open_ in (True, False):
        for size in (0, 4096):
            for k in (0, 1, 2, None):
                P = Pty(mod, size, open_=open_, ref=k)
                e, R, st = P.e, P.R, P.st
                if k is None:
                    st.assume(laddk(P.ref, -3))
                what = 'shl_pty_unref() with %s references' % ('three or more' if k is None else k)
                for s, _ in e.run('shl_pty_unref', [P.p], st.clone()):
                    cl = [q[2][0] for q in events(s, 'sys') if q[1] == 'close']
                    gone = R.o.id in s.freed
                    if k == 1:
                        r.ob('released with the last reference', gone, what, what + ': not released')
                        r.ob('closed once', cl == ([P.FD] if open_ else []), what, lambda: what + ': closes %s' % cl)
                        r.ob('one buffer', R.buf is None or R.buf.id in s.freed, what, what + ': the queue is lost')
                    else:
                        r.ob('kept while referenced', not gone and not cl and (R.buf is None or R.buf.id not in s.freed), what, what + ': released')
                        if not gone:
                            r.ob('counting', s.proveq(e.norm_u(s, P.get(s, 'ref')), laddk(P.ref, -1) if k != 0 else lc(0)), what, what + ': the count is wrong')
                what = 'shl_pty_ref() with %s references' % ('three or more' if k is None else k)
                for s, _ in e.run('shl_pty_ref', [P.p], st.clone()):
                    r.ob('counting', s.proveq(e.norm_u(s, P.get(s, 'ref')), laddk(P.ref, 1) if k != 0 else lc(0)), what, what + ': the count is wrong')
                r.engine(e, KINDS)


def opening(r, job):
    """every path of shl_pty_open: each descriptor and allocation is closed and released once or handed over"""
    slave, = job
    mod = load.module('pty')
    P = Pty(mod, 0)
    e, st = P.e, P.st
    out = e.newobj('out', 'arg', lc(8), None, 'lazy')
    mark = e.newobj('mark', 'opaque', None, None, 'opaque')
    e.store_const(st, out, 0, Ptr(mark.id), 8)

    def opens(name, fd):
        def f(e, st, x, a):
            o = []
            for s, c in P.fail(st, (None,)):
                s.ev(('open', name, None))
                o.append((s, Int(32, lc(-1))))
            st = st.clone()
            st.ev(('open', name, fd))
            o.append((st, Int(32, lc(fd))))
            return o
        e.stubs[name] = f
    opens('posix_openpt', 20)
    opens('open64', slave)
    opens('open', slave)
    opens('epoll_create1', 30)

    def pipe2(e, st, x, a):
        o = []
        for s, c in P.fail(st, (None,)):
            o.append((s, Int(32, lc(-1))))
        p = e.resolve(st, a[0])
        for i, fd in enumerate((21, 22)):
            e.store_const(st, e.objs[p.o], st.const(p.l) + 4 * i, Int(32, lc(fd)), 4)
            st.ev(('open', 'pipe', fd))
        o.append((st, Int(32, lc(0))))
        return o

    def do_fork(e, st, x, a):
        o = []
        for s, c in P.fail(st, (None,)):
            o.append((s, Int(32, lc(-1))))
        c = st.clone()
        c.ev(('child',))
        o.append((c, Int(32, lc(0))))
        p = st.clone()
        p.ev(('parent',))
        o.append((p, Int(32, ls(e.S.fresh(32, 'pid', 1, 1 << 30)))))
        return o

    def outcome(name, ok=0, codes=(None,)):
        def f(e, st, x, a):
            o = []
            for s, c in P.fail(st, codes):
                s.ev(('call', name, 'fails'))
                o.append((s, Int(x.ty[1], lc(-1))))
            s = st.clone()
            s.ev(('call', name, tuple(num(e, st, v) if isinstance(v, Int) else v for v in a)))
            o.append((s, Int(x.ty[1], lc(ok)) if not callable(ok) else ok(e, st, a)))
            return o
        e.stubs[name] = f

    def one_byte(e, st, x, a):
        """read or write of the single byte of the handshake"""
        fd, p = num(e, st, a[0]), e.resolve(st, a[1])
        o = []
        # a signal interrupts the transfer at most twice
        again = sum(1 for q in st.events() if q == ('io', fd))
        for s, c in P.fail(st, (EINTR, EAGAIN, None) if again < 2 else (None,)):
            s.ev(('io', fd))
            o.append((s, Int(64, lc(-1))))
        s = st.clone()
        s.ev(('io', fd))
        o.append((s, Int(64, lc(0))))
        st = st.clone()
        st.ev(('io', fd))
        ob = e.objs[p.o]
        if rd[0]:
            e.store_const(st, ob, st.const(p.l), Int(8, ls(e.S.fresh(8, 'd'))), 1)
        o.append((st, Int(64, lc(1))))
        return o
    rd = [True]

    def rd_(e, st, x, a):
        rd[0] = True
        return one_byte(e, st, x, a)

    def wr_(e, st, x, a):
        rd[0] = False
        return one_byte(e, st, x, a)
    e.stubs.update({'pipe2': pipe2, 'fork': do_fork, 'read': rd_, 'write': wr_})
    for n in ('tcgetattr', 'tcsetattr', 'ioctl', 'sigprocmask', 'grantpt', 'unlockpt'):
        outcome(n)
    outcome('setsid', 5)
    plain = e.stubs['tcgetattr']

    def tcget(e, st, x, a):
        p = e.resolve(st, a[1])
        o = e.objs[p.o]
        for s, v in plain(e, st, x, a):
            if num(e, s, v) == 0:
                for k in range(s.const(o.size) // 4):
                    e.store_const(s, o, 4 * k, e.fresh(32, 'attr'), 4)
            yield s, v
    e.stubs['tcgetattr'] = lambda e, st, x, a: list(tcget(e, st, x, a))
    outcome('dup2', lambda e, st, a: a[1])
    e.stubs['sigemptyset'] = lambda e, st, x, a: [(st, Int(32, lc(0)))]
    e.stubs['signal'] = lambda e, st, x, a: [(st, NULL)]
    name = e.newobj('tty name', 'opaque', None, None, 'opaque')
    e.stubs['ptsname'] = lambda e, st, x, a: [(s, NULL) for s, _ in P.fail(st, (None,))] + [(st.clone(), Ptr(name.id))]

    def leave(e, st, x, a):
        st.ev(('exit',))
        raise Dead()
    e.stubs['exit'] = leave
    e.peel = e.unroll = 80
    outs = e.run('shl_pty_open', [Ptr(out.id), P.cb, Ptr(P.data.id), Int(16, lc(80)), Int(16, lc(24))], st)
    what = 'shl_pty_open() with slave descriptor %d' % slave
    kinds = set()
    for s, ret in outs:
        r.count('open paths')
        ev = s.events()
        rl = e.norm_s(s, ret)
        child = any(q[0] == 'child' for q in ev)
        opened = [q[2] for q in ev if q[0] == 'open' and q[2] is not None]
        closed = [q[2][0] for q in ev if q[0] == 'sys' and q[1] == 'close']
        heap = [q[1] for q in ev if q[0] == 'alloc']
        live = [o for o in heap if o not in s.freed]
        got = e.resolve(s, e.load_const(s, out, 0, ('p',), 8, None))
        keep = []
        if child:
            kinds.add('child')
            # the slave stays open as a standard descriptor
            keep = [slave] if slave <= 2 else []
            r.ob('nothing leaks', not live and got == NULL, what, what + ': the child keeps the object')
            r.ob('child result', s.const(rl) == 0, what, what + ': the child does not return 0')
        elif s.prove(laddk(rl, -1)):
            kinds.add('parent')
            keep = [20]
            ok = isinstance(got, Ptr) and live == [got.o]
            r.ob('nothing leaks', ok, what, what + ': the object created is not the one returned')
            if ok:
                o = e.objs[got.o]
                for f, want in (('fd', lc(20)), ('ref', lc(1)), ('child', rl)):
                    m = mod.member('shl_pty', f)
                    v = e.load_const(s, o, m['off'], ('i', m['size'] * 8), m['size'], None)
                    r.ob('object complete', isinstance(v, Int) and s.proveq(e.norm_s(s, v), want), what + f, what + ': member %s is wrong' % f)
                for f, want in (('fn_input', P.cb), ('fn_input_data', Ptr(P.data.id))):
                    v = e.resolve(s, e.load_const(s, o, mod.member('shl_pty', f)['off'], ('p',), 8, None))
                    r.ob('object complete', v == e.resolve(s, want), what + f, what + ': member %s is wrong' % f)
        else:
            kinds.add('failure')
            r.ob('result', s.prove(laddk(lscale(rl, -1), -1)), what, what + ': neither a process nor an error is returned')
            r.ob('nothing leaks', not live, what, what + ': a failing call keeps memory')
            r.ob('out untouched on failure', got == Ptr(mark.id), what, what + ': a failing call stores a result')
        left = sorted(set(opened) - set(closed))
        r.ob('descriptors', left == sorted(keep), what, lambda: what + ': descriptors %s stay open instead of %s' % (left, sorted(keep)))
        r.ob('descriptors', len(closed) == len(set(closed)) and set(closed) <= set(opened), what, lambda: what + ': closes %s of %s' % (closed, opened))
    r.ob('outcomes', kinds == {'child', 'parent', 'failure'}, what, lambda: what + ': outcomes %s' % sorted(kinds))
    r.engine(e, KINDS)
    # the bridge
    if slave > 2:
        for s, ret in e.run('shl_pty_bridge_new', [], st.clone()):
            ok = any(q[0] == 'open' and q[2] == 30 for q in s.events())
            rl = e.norm_s(s, ret)
            r.ob('bridge', s.const(rl) == 30 if ok else s.prove(laddk(lscale(rl, -1), -1)), 'shl_pty_bridge_new', 'shl_pty_bridge_new(): wrong result')
        for fd in (30, -1):
            for s, ret in e.run('shl_pty_bridge_free', [Int(32, lc(fd))], st.clone()):
                cl = [q[2][0] for q in s.events() if q[0] == 'sys' and q[1] == 'close']
                r.ob('closed once', cl == ([30] if fd == 30 else []), 'shl_pty_bridge_free', lambda: 'shl_pty_bridge_free(): closes %s' % cl)


def check(Check):
    c = Check('C26', 'proof', RULE)
    load.module('pty')
    sz = sizes(c.thorough)
    jobs = [(op, n) for n in sz for op in ('push', 'pull', 'copy', 'peek', 'flush', 'clear')]
    pool(c, jobs, ring_op)
    c.floor('ring cases', c.cov.get('ring cases', 0), len(jobs))
    dj = [(fn, n, cb, act) for fn in ('shl_pty_dispatch', 'shl_pty_bridge_dispatch_pty') for n in (0, 4096, 1 << 16)
          for cb, act in ((True, None), (False, None), (True, 'close'))]
    dj += [('shl_pty_dispatch', n, True, 'push') for n in (0, 64, 4096)]
    pool(c, dj, dispatch)
    c.floor('dispatch paths', c.cov.get('dispatch paths', 0), 300)
    pool(c, [(basics, ())] + [(opening, (n,)) for n in (1, 23)], lambda r, j: j[0](r, j[1]))
    c.floor('open paths', c.cov.get('open paths', 0), 20)
    c.assumptions.append('lengths describe existing memory (below 2^47 bytes); the input callback does nothing, closes the pty or queues an answer; buffers of 2^0 to 2^40 bytes')
    c.sample('%s() on a ring of %d bytes: every start and fill level, arbitrary length' % jobs[len(jobs) // 2])
    return c.finish()

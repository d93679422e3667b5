"""C44: the child process of a pty and its window size."""
from tsa import load
from .ops import *
from . import c26
from .c26 import Pty, num, KINDS

RULE = ('both sides of the fork in shl_pty_open() are interpreted with stand-ins for the system calls, each of which may fail; the memory '
        'handed to every call (terminal attributes, window size, handshake byte) is compared byte by byte at the moment of the call, and the '
        'order of the calls on every path is compared with the definition')
O_RDWR, O_NONBLOCK, O_CLOEXEC = 2, 0o4000, 0o2000000
TIOCSCTTY, TIOCSWINSZ, TIOCSIG = 0x540e, 0x5414, 0x40045436
IFLAG, CC, VERASE, IUTF8, TERMIOS = 0, 17, 2, 0o40000, 60
MASTER, RX, TX, SLAVE = 20, 21, 22, 23


def byte(e, st, p, k):
    o = e.objs[p.o]
    return e.load_const(st, o, st.const(p.l) + k, ('i', 8), 1, None)


def half(e, st, p, k):
    return e.load_const(st, e.objs[p.o], st.const(p.l) + k, ('i', 16), 2, None)


class World:
    def __init__(self, r, mod):
        self.r = r
        P = self.P = Pty(mod, 0)
        e, self.st = P.e, P.st
        e.peel = e.unroll = 80
        self.e = e
        self.setup = mod.enum('SHL_PTY_SETUP')
        self.cols, self.rows = (Int(16, ls(e.S.fresh(16, n))) for n in ('width', 'height'))
        self.name = e.newobj('tty name', 'opaque', None, None, 'opaque')
        self.attr = None
        for n, ok in (('posix_openpt', MASTER), ('open', SLAVE), ('open64', SLAVE), ('setsid', 5), ('sigprocmask', 0), ('grantpt', 0),
                      ('unlockpt', 0)):
            self.plain(n, ok)
        e.stubs.update(pipe2=self.pipe2, fork=self.fork, ptsname=self.ptsname, tcgetattr=self.tcgetattr, tcsetattr=self.tcsetattr,
                       ioctl=self.ioctl, dup2=self.dup2, read=self.read, write=self.write, exit=self.exit, _exit=self.exit,
                       signal=self.signal, sigemptyset=self.sigemptyset)

    def can_fail(self, st, name, w=32):
        out = []
        for s, c in self.P.fail(st, (None,)):
            s.ev(('call', name, 'fails'))
            out.append((s, Int(w, lc(-1))))
        return out

    def plain(self, name, ok):
        def f(e, st, x, a):
            out = self.can_fail(st, name, x.ty[1])
            s = st.clone()
            s.ev(('call', name, tuple(num(e, st, v) if isinstance(v, Int) else e.resolve(st, v) for v in a)))
            return out + [(s, Int(x.ty[1], lc(ok)))]
        self.e.stubs[name] = f

    def pipe2(self, e, st, x, a):
        out = self.can_fail(st, 'pipe2')
        s = st.clone()
        p = e.resolve(s, a[0])
        for i, fd in enumerate((RX, TX)):
            e.store_const(s, e.objs[p.o], s.const(p.l) + 4 * i, Int(32, lc(fd)), 4)
        s.ev(('call', 'pipe2', (num(e, s, a[1]),)))
        return out + [(s, Int(32, lc(0)))]

    def fork(self, e, st, x, a):
        out = self.can_fail(st, 'fork')
        c = st.clone()
        c.ev(('call', 'child', ()))
        p = st.clone()
        p.ev(('call', 'parent', ()))
        return out + [(c, Int(32, lc(0))), (p, Int(32, ls(e.S.fresh(32, 'pid', 1, 1 << 30))))]

    def ptsname(self, e, st, x, a):
        out = []
        for s, c in self.P.fail(st, (None,)):
            s.ev(('call', 'ptsname', 'fails'))
            out.append((s, NULL))
        s = st.clone()
        s.ev(('call', 'ptsname', (num(e, s, a[0]),)))
        return out + [(s, Ptr(self.name.id))]

    def tcgetattr(self, e, st, x, a):
        out = self.can_fail(st, 'tcgetattr')
        s = st.clone()
        p = e.resolve(s, a[1])
        if self.attr is None:
            self.attr = {k: Int(8, ls(e.S.fresh(8, 'attr%d' % k))) for k in range(16, TERMIOS)}
            self.attr.update({k: Int(32, ls(e.S.fresh(32, 'attr%d' % k))) for k in (0, 4, 8, 12)})
        for k, v in self.attr.items():
            e.store_const(s, e.objs[p.o], s.const(p.l) + k, v, v.w // 8)
        s.ev(('call', 'tcgetattr', (num(e, s, a[0]),)))
        return out + [(s, Int(32, lc(0)))]

    def tcsetattr(self, e, st, x, a):
        what = 'child set-up'
        p = e.resolve(st, a[2])
        ok = self.attr is not None and isinstance(p, Ptr)
        if self.r.ob('attributes', ok, what, what + ': attributes are set that were not read'):
            wrong = []
            for k, v in self.attr.items():
                got = e.load_const(st, e.objs[p.o], st.const(p.l) + k, ('i', v.w), v.w // 8, None)
                gb, wb = list(e.bits(st, got)) if isinstance(got, Int) else None, list(e.bits(st, v))
                if k == CC + VERASE:
                    wb = [8 >> i & 1 for i in range(8)]
                if k == IFLAG:
                    wb[IUTF8.bit_length() - 1] = 1
                if gb != wb:
                    wrong.append(k)
            self.r.ob('attributes', not wrong, what, lambda: what + ': the terminal attributes set differ from the old ones with backspace as '
                      'erase character and UTF-8 input at byte %s' % wrong)
        out = self.can_fail(st, 'tcsetattr')
        s = st.clone()
        s.ev(('call', 'tcsetattr', (num(e, s, a[0]), num(e, s, a[1]))))
        return out + [(s, Int(32, lc(0)))]

    def ioctl(self, e, st, x, a):
        fd, req = num(e, st, a[0]), num(e, st, a[1])
        req &= (1 << 32) - 1
        if req == TIOCSWINSZ:
            p = e.resolve(st, a[2])
            what = 'window size'
            if self.r.ob('window size', isinstance(p, Ptr), what, what + ': none is passed'):
                row, col = half(e, st, p, 0), half(e, st, p, 2)
                same = lambda v, w: isinstance(v, Int) and st.proveq(e.norm_u(st, v), e.norm_u(st, w))
                self.r.ob('window size', same(row, self.rows), what, what + ': the number of rows is not the height given')
                self.r.ob('window size', same(col, self.cols), what, what + ': the number of columns is not the width given')
                self.r.ob('window size', all(isinstance(v, Int) and st.const(v.l) == 0 for v in (half(e, st, p, 4), half(e, st, p, 6))), what,
                          what + ': a size in pixels is made up')
            arg = 'size'
        else:
            arg = a[2] if len(a) > 2 else None
        out = self.can_fail(st, 'ioctl')
        s = st.clone()
        s.ev(('call', 'ioctl', (fd, req, arg)))
        return out + [(s, Int(32, lc(0)))]

    def dup2(self, e, st, x, a):
        out = self.can_fail(st, 'dup2')
        s = st.clone()
        s.ev(('call', 'dup2', (num(e, s, a[0]), num(e, s, a[1]))))
        return out + [(s, a[1])]

    def transfer(self, e, st, x, a, wr):
        fd, p = num(e, st, a[0]), e.resolve(st, a[1])
        name = 'write' if wr else 'read'
        again = sum(1 for q in st.events() if q[0] == 'again')
        out = []
        for s, c in self.P.fail(st, (4, 11, None) if again < 2 else (None,)):
            s.ev(('again',) if c else ('call', name, 'fails'))
            out.append((s, Int(64, lc(-1))))
        s = st.clone()
        s.ev(('call', name, (fd, 0, None)))
        out.append((s, Int(64, lc(0))))
        s = st.clone()
        n = num(e, s, a[2])
        v = byte(e, s, p, 0) if wr else Int(8, ls(e.S.fresh(8, 'message')))
        if not wr:
            e.store_const(s, e.objs[p.o], s.const(p.l), v, 1)
        s.ev(('call', name, (fd, n, v)))
        return out + [(s, Int(64, lc(1)))]

    def read(self, e, st, x, a):
        return self.transfer(e, st, x, a, False)

    def write(self, e, st, x, a):
        return self.transfer(e, st, x, a, True)

    def signal(self, e, st, x, a):
        st.ev(('call', 'signal', (num(e, st, a[0]), e.resolve(st, a[1]))))
        return [(st, NULL)]

    def sigemptyset(self, e, st, x, a):
        st.ev(('call', 'sigemptyset', (e.resolve(st, a[0]),)))
        return [(st, Int(32, lc(0)))]

    def exit(self, e, st, x, a):
        ev = st.events()
        what = 'child set-up'
        self.r.count('failing children')
        self.r.ob('failure ends the child', ('call', 'child', ()) in ev and any(q[0] == 'call' and q[2] == 'fails' for q in ev), what,
                  'shl_pty_open() ends a process although nothing failed, or ends the parent')
        self.r.ob('failure ends the child', num(e, st, a[0]) not in (None, 0), what, what + ' fails with exit status 0')
        self.r.ob('ready last', not any(q[:2] == ('call', 'write') for q in ev), what, what + ': the parent is told the set-up worked, then it fails')
        raise Dead()


def calls(s):
    return [q[1:] for q in s.events() if q[0] == 'call']


def opening(r, _):
    mod = load.module('pty')
    w = World(r, mod)
    e, st = w.e, w.st
    out = e.newobj('out', 'arg', lc(8), None, 'lazy')
    ends = e.run('shl_pty_open', [Ptr(out.id), w.P.cb, Ptr(w.P.data.id), w.cols, w.rows], st)
    r.engine(e, KINDS)
    seen = set()
    for s, ret in ends:
        ev = calls(s)
        names = [q[0] for q in ev]
        for n, a in ev:
            if n == 'posix_openpt' and a != 'fails':
                r.ob('descriptor flags', a[0] & (O_RDWR | O_NONBLOCK | O_CLOEXEC) == O_RDWR | O_NONBLOCK | O_CLOEXEC, 'master',
                     'the master side is not opened for reading and writing, non-blocking and closed on exec')
            if n == 'pipe2' and a != 'fails':
                r.ob('descriptor flags', a[0] & O_CLOEXEC, 'pipe', 'the handshake pipe is inherited by programs')
        if 'child' in names:
            seen.add('child')
            child(r, w, s, ev, num(e, s, ret))
        elif 'parent' in names:
            seen.add('parent')
            r.count('parent paths')
            rd = [a for n, a in ev if n == 'read']
            ok = bool(rd) and rd[-1] != 'fails' and rd[-1][0] == RX and rd[-1][1] == 1
            good = ok and s.proveq(e.norm_u(s, rd[-1][2]), lc(w.setup))
            rl = e.norm_s(s, ret)
            if s.prove(laddk(rl, -1)):
                r.ob('parent waits', good, 'shl_pty_open', 'the parent returns a pty without having been told that the child is ready')
            else:
                bad = not ok or not possible(s, e.norm_u(s, rd[-1][2]), w.setup)
                r.ob('parent waits', bad, 'shl_pty_open', 'the parent fails although the child is ready')
    r.ob('outcomes', seen == {'child', 'parent'}, 'shl_pty_open', 'not both sides of the fork return')


def possible(s, l, k):
    s = s.clone()
    try:
        s.assume(laddk(l, -k))
        s.assume(laddk(lscale(l, -1), k))
    except Infeasible:
        return False
    return True


def child(r, w, s, ev, ret):
    r.count('child paths')
    what = 'child set-up'
    e = w.e
    k = [q[0] for q in ev].index('child')
    ev = ev[k + 1:]
    told = [a for n, a in ev if n == 'write' and a != 'fails' and a[1]]
    lost = any(n == 'write' and (a == 'fails' or not a[1]) for n, a in ev)
    early = [n for n, a in ev if a == 'fails' and n != 'write']
    r.ob('failure ends the child', not early, what, lambda: what + ': the child goes on although %s() failed' % early[0])
    r.ob('told once', len(told) == (0 if lost else 1), what, what + ': the parent is not told exactly once')
    for a in told:
        r.ob('told once', a[0] == TX and a[1] == 1 and isinstance(a[2], Int) and s.proveq(e.norm_u(s, a[2]), lc(w.setup)), what,
             what + ': the parent is told something else')

    def at(name, *args):
        """position of the first call with these leading arguments"""
        for i, (n, a) in enumerate(ev):
            if n == name and a != 'fails' and a[:len(args)] == args:
                return i
        return None
    need = [('sigprocmask',), ('grantpt', MASTER), ('unlockpt', MASTER), ('ptsname', MASTER), ('setsid',), ('ioctl', SLAVE, TIOCSCTTY),
            ('tcgetattr', SLAVE), ('tcsetattr', SLAVE), ('ioctl', SLAVE, TIOCSWINSZ), ('dup2', SLAVE, 0), ('dup2', SLAVE, 1), ('dup2', SLAVE, 2)]
    pos = {}
    for q in need:
        pos[q] = at(*q)
        r.ob('steps', pos[q] is not None, what, lambda: what + ': %s(%s) is missing' % (q[0], ', '.join(map(str, q[1:]))))
    opened = [i for i, (n, a) in enumerate(ev) if n in ('open', 'open64') and a != 'fails']
    r.ob('steps', len(opened) == 1 and ev[opened[0]][1][0] == Ptr(w.name.id) and ev[opened[0]][1][1] & 3 == O_RDWR, what,
         what + ': the terminal is not opened once, by its name, for reading and writing')
    done = [i for i, (n, a) in enumerate(ev) if n == 'write']
    if opened and all(p is not None for p in pos.values()):
        o = opened[0]
        r.ob('order', pos[('sigprocmask',)] < pos[('grantpt', MASTER)] and pos[('unlockpt', MASTER)] < o and pos[('setsid',)] < pos[('ioctl', SLAVE, TIOCSCTTY)], what,
             what + ': signals are reset before access is granted, the terminal is opened when unlocked and becomes the controlling one of a new session')
        r.ob('order', not done or max(max(pos.values()), o) < done[0], what, what + ': the parent is told before everything is set up')
    reset = {a[0] for n, a in ev if n == 'signal' and a[1] is NULL}
    missing = sorted(set(range(1, 31)) - {9, 19} - reset)
    r.ob('signals', not missing, what, lambda: what + ': signals %s keep the handler of the parent' % missing)
    last = [(n, a) for n, a in ev if n in ('sigprocmask', 'sigemptyset')]
    r.ob('signals', len(last) >= 2 and last[0][0] == 'sigemptyset' and last[-1][0] == 'sigprocmask' and last[-1][1][0] == 2
         and last[-1][1][1] == last[0][1][0], what, what + ': blocked signals stay blocked')
    r.ob('child result', ret == 0, what, what + ': the child does not get 0')


def controlling(r, _):
    """resizing and signalling"""
    mod = load.module('pty')
    for open_ in (True, False):
        w = World(r, mod)
        e = w.e
        P = w.P
        st = P.st
        if not open_:
            P.set(st, 'fd', Int(32, lc(-1)))
        sig = Int(32, ls(e.S.fresh(32, 'signal')))
        for fn, args in (('shl_pty_resize', [P.p, w.cols, w.rows]), ('shl_pty_signal', [P.p, sig])):
            what = fn + '()'
            outs = e.run(fn, args, st.clone())
            r.ob('returns', bool(outs), what, what + ' never returns')
            for s, ret in outs:
                r.count('control calls')
                ev = calls(s)
                rl = e.norm_s(s, ret)
                if not open_:
                    r.ob('control call', not ev, what, what + ' on a closed pty: a call is made')
                    r.ob('control result', s.prove(laddk(lscale(rl, -1), -1)), what, what + ' on a closed pty: a failure is not reported')
                    continue
                if ev and ev[0][1] == 'fails':
                    r.ob('control result', s.prove(laddk(lscale(rl, -1), -1)), what, what + ': a failure is not reported')
                    continue
                ok = len(ev) == 1 and ev[0][0] == 'ioctl' and ev[0][1][0] == P.FD
                if fn == 'shl_pty_resize':
                    ok = ok and ev[0][1][1] == TIOCSWINSZ
                else:
                    ok = ok and ev[0][1][1] == TIOCSIG and isinstance(ev[0][1][2], Int) and s.proveq(e.norm_u(s, ev[0][1][2]), e.norm_u(s, sig))
                r.ob('control call', ok, what, lambda: what + ': %s' % [q[0] for q in ev])
                r.ob('control result', s.proveq(rl, lc(0)), what, what + ': success is not reported')
        r.engine(e, KINDS)


def check(Check):
    c = Check('C44', 'proof', RULE)
    load.module('pty')
    pool(c, [(opening, ()), (controlling, ())], lambda r, j: j[0](r, j[1]))
    c.floor('child paths', c.cov.get('child paths', 0), 1)
    c.floor('failing children', c.cov.get('failing children', 0), 10)
    c.floor('parent paths', c.cov.get('parent paths', 0), 3)
    c.floor('control calls', c.cov.get('control calls', 0), 4)
    return c.finish()

"""Numeric part of the abstract domain.

An abstract state binds every abstract variable ("symbol") to a reduced product of
  * an interval set,
  * known bits,
  * a conjunction of linear inequalities over several symbols (convex polyhedra),
and derived symbols carry the definition (bit provenance, table lookup, opcode) they were built from.
"""
import ctypes
import os
import subprocess
from math import gcd

_here = os.path.dirname(os.path.abspath(__file__))


def _build_lp():
    """compile the exact simplex kernel next to the scratch area (never inside tracked files)"""
    src = os.path.join(_here, 'lp.cpp')
    d = os.path.join(os.path.dirname(_here), '.build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'lp.so')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = so + '.%d' % os.getpid()
        subprocess.check_call(['g++', '-O2', '-shared', '-fPIC', '-o', tmp, src])
        os.replace(tmp, so)
    return ctypes.CDLL(so)


_lp = None


def lp_min(rows, obj):
    """rows: list of coefficient lists + constant; obj: coefs.  -> (status, min)"""
    global _lp
    if _lp is None:
        _lp = _build_lp()
    n = len(obj)
    m = len(rows)
    flat = [x for r in rows for x in r]
    try:
        A = (ctypes.c_int64 * max(1, len(flat)))(*flat)
        c = (ctypes.c_int64 * max(1, n))(*obj)
    except OverflowError:
        return 3, None
    a = ctypes.c_int64()
    d = ctypes.c_int64()
    s = _lp.lp_min(n, m, A, c, ctypes.byref(a), ctypes.byref(d))
    if s == 0:
        return 0, (a.value, d.value)
    return s, None


# ------------------------------------------------------------------ linear expressions
# (k, ((sym, coef), ...)) with sym ids ascending, coef != 0
def lc(k):
    return (k, ())


def ls(s, c=1, k=0):
    return (k, ((s, c),))


def ladd(a, b, f=1):
    if not b[1]:
        return (a[0] + f * b[0], a[1])
    if not a[1] and f == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + f * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + f * b[0], tuple(sorted(d.items())))


def lsub(a, b):
    return ladd(a, b, -1)


def laddk(a, k):
    return (a[0] + k, a[1])


def lscale(a, f):
    if f == 0:
        return (0, ())
    return (a[0] * f, tuple((s, c * f) for s, c in a[1]))


def lsubst(a, m):
    """substitute symbols by linear expressions"""
    hit = False
    for s, _ in a[1]:
        if s in m:
            hit = True
            break
    if not hit:
        return a
    r = (a[0], tuple((s, c) for s, c in a[1] if s not in m))
    for s, c in a[1]:
        if s in m:
            r = ladd(r, m[s], c)
    return r


def lnorm(a):
    """tighten a >= 0 over the integers"""
    g = 0
    for _, c in a[1]:
        g = gcd(g, c)
    if g > 1:
        return (a[0] // g, tuple((s, c // g) for s, c in a[1]))
    return a


# ------------------------------------------------------------------ interval sets
def iset(*vals):
    return inorm([(v, v) for v in vals])


def inorm(l):
    l = sorted(l)
    out = []
    for lo, hi in l:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def iand(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def ior(a, b):
    return inorm(list(a) + list(b))


def icompl(a, lo, hi):
    out = []
    cur = lo
    for x, y in a:
        if x > cur:
            out.append((cur, x - 1))
        cur = max(cur, y + 1)
    if cur <= hi:
        out.append((cur, hi))
    return tuple(out)


def isize(a):
    return sum(h - l + 1 for l, h in a)


def ivals(a):
    for l, h in a:
        yield from range(l, h + 1)


class Sym:
    __slots__ = ('id', 'name', 'dom', 'w', 'defn', 'bases', 'ck')

    def __init__(self, id, name, dom, w, defn=None, bases=None):
        self.id = id
        self.name = name
        self.dom = dom
        self.w = w
        self.defn = defn
        self.bases = bases
        self.ck = next(iter(bases)) if bases is not None and len(bases) == 1 else None


class Syms:
    """table of abstract variables (append-only, shared by all states of one analysis)"""

    def __init__(self):
        self.t = []
        self.memo = {}
        self.deriv = {}          # base -> values computed from it alone

    def fresh(self, w, name, lo=0, hi=None, dom=None):
        if dom is None:
            if hi is None:
                hi = (1 << w) - 1
            dom = ((lo, hi),)
        s = Sym(len(self.t), name, dom, w)
        s.bases = frozenset((s.id,))
        s.ck = s.id
        self.t.append(s)
        return s.id

    def derived(self, key, w, dom, name):
        r = self.memo.get(key)
        if r is None:
            bases = frozenset()
            for b in self._deps(key):
                bases |= self.t[b].bases
            s = Sym(len(self.t), name, dom, w, key, bases)
            self.t.append(s)
            r = self.memo[key] = s.id
            if len(bases) == 1:
                self.deriv.setdefault(next(iter(bases)), []).append(r)
        return r

    def _deps(self, key):
        k = key[0]
        if k == 'bits':
            return {b[0] for b in key[1] if isinstance(b, tuple)}
        if k == 'lin':
            return {s for s, _ in key[1][1]}
        if k == 'tab':
            return {s for s, _ in key[2][1]}
        if k == 'op':
            return {s for s, _ in key[3][1]} | {s for s, _ in key[4][1]}
        return set()

    def evals(self, s, asg):
        """concrete value of symbol s under assignment of base symbols (all must be present)"""
        if s in asg:
            return asg[s]
        y = self.t[s]
        d = y.defn
        if d is None:
            return None
        k = d[0]
        if k == 'bits':
            v = 0
            for i, b in enumerate(d[1]):
                if b == 1:
                    v |= 1 << i
                elif isinstance(b, tuple):
                    x = self.evals(b[0], asg)
                    if x is None:
                        return None
                    v |= ((x >> b[1]) & 1) << i
            return v
        if k == 'lin':
            x = self.evall(d[1], asg)
            return None if x is None else x & ((1 << d[2]) - 1)
        if k == 'tab':
            x = self.evall(d[2], asg)
            if x is None or not 0 <= x < len(d[1]):
                return None
            return d[1][x]
        if k == 'op':
            a = self.evall(d[3], asg)
            b = self.evall(d[4], asg)
            if a is None or b is None:
                return None
            return concrete_op(d[1], d[2], a, b)
        return None

    def evall(self, lin, asg):
        v = lin[0]
        for s, c in lin[1]:
            x = self.evals(s, asg)
            if x is None:
                return None
            v += c * x
        return v


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def concrete_op(op, w, a, b):
    M = (1 << w) - 1
    a &= M
    b &= M
    if op == 'mul':
        return a * b & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'udiv':
        return a // b if b else None
    if op == 'urem':
        return a % b if b else None
    if op == 'sdiv':
        x, y = sx(a, w), sx(b, w)
        return int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) & M if y else None
    if op == 'srem':
        x, y = sx(a, w), sx(b, w)
        return (abs(x) % abs(y)) * (1 if x >= 0 else -1) & M if y else None
    if op == 'shl':
        return (a << b) & M if b < w else None
    if op == 'lshr':
        return a >> b if b < w else None
    if op == 'ashr':
        return sx(a, w) >> b & M if b < w else None
    if op == 'add':
        return a + b & M
    if op == 'sub':
        return a - b & M
    return None


def match_up(x, m, v, w):
    """smallest y >= x (y < 2^w) with y & m == v, None when there is none"""
    if x & m == v:
        return x
    # the result shares a prefix with x, then has a higher bit, then the smallest possible rest
    best = None
    for i in range(w):
        b = 1 << i
        if x & b or (m & b and not v & b):
            continue
        hi = x >> (i + 1) << (i + 1)
        if (hi ^ v) & m >> (i + 1) << (i + 1):
            continue
        y = hi | b | (v & m & (b - 1))
        if best is None or y < best:
            best = y
    return best


class Infeasible(Exception):
    pass


ENUM = 2048
_stat = {'lp': 0, 'prove': 0}


class Num:
    """numeric component of a state (mixed into State)"""
    __slots__ = ()

    # -- domains
    def d(self, s):
        """domain of s; cached per base symbol (clones share entries of bases that have not changed since)"""
        y = self.S.t[s]
        ck = y.ck
        c = self.dc.get(ck)
        if c is None:
            c = self.dc[ck] = {}
        r = c.get(s)
        if r is None:
            r = self._d(s, y)
            c = self.dc.get(ck)
            if c is None:
                c = self.dc[ck] = {}
            c[s] = r
        return r

    def touch(self, s):
        dc = self.dc
        if dc:
            for b in self.S.t[s].bases:
                dc.pop(b, None)
            dc.pop(None, None)

    def _d(self, s, y):
        S = self.S
        dm = self.dom.get(s)
        if dm is None:
            dm = y.dom
        kb = self.kb.get(s)
        if kb is not None:
            m, v = kb
            full = (1 << y.w) - 1
            lo, hi = v, v | (full & ~m)
            if dm[0][0] < lo or dm[-1][1] > hi:
                dm = iand(dm, ((lo, hi),))
            if dm and len(dm) <= 64:
                nd = []
                for a, b in dm:
                    a = match_up(a, m, v, y.w)
                    if a is None or a > b:
                        continue
                    b = full - match_up(full - b, m, ~v & m, y.w)
                    nd.append((a, b))
                dm = tuple(nd)
            if isize(dm) <= ENUM:
                dm = inorm([(x, x) for x in ivals(dm) if x & m == v])
            if not dm:
                raise Infeasible()
        df = y.defn
        if df is not None:
            if len(y.bases) == 1:
                b = next(iter(y.bases))
                bd = self.dom.get(b)
                if bd is None:
                    bd = S.t[b].dom
                if isize(bd) <= ENUM:
                    vs = set()
                    bd = self.d(b)
                    for x in ivals(bd):
                        r = S.evals(s, {b: x})
                        if r is None:
                            vs = None
                            break
                        vs.add(r)
                    if vs is not None:
                        dm = iand(dm, inorm([(x, x) for x in vs]))
                        if not dm:
                            raise Infeasible()
                        return dm
            elif not y.bases:
                return dm
            if df[0] == 'bits':
                lo = hi = 0
                for i, b in enumerate(df[1]):
                    if b == 1:
                        lo |= 1 << i
                        hi |= 1 << i
                    elif b is None:
                        hi |= 1 << i
                    elif b != 0:
                        x = self.bit(b[0], b[1])
                        if x == 1:
                            lo |= 1 << i
                            hi |= 1 << i
                        elif x != 0:
                            hi |= 1 << i
                dm = iand(dm, ((lo, hi),))
                if not dm:
                    raise Infeasible()
            elif df[0] == 'lin':
                lo, hi = self.ib(df[1])
                if lo is not None and lo >= 0 and hi < 1 << df[2]:
                    dm = iand(dm, ((lo, hi),))
                    if not dm:
                        raise Infeasible()
        return dm

    def bit(self, s, i):
        """0, 1 or (s, i)"""
        y = self.S.t[s]
        if y.defn is not None and y.defn[0] == 'bits':
            b = y.defn[1][i] if i < len(y.defn[1]) else 0
            if isinstance(b, tuple):
                return self.bit(*b)
            if b is not None:
                return b
            kb = self.kb.get(s)
            if kb and kb[0] >> i & 1:
                return kb[1] >> i & 1
            return (s, i)
        kb = self.kb.get(s)
        if kb and kb[0] >> i & 1:
            return kb[1] >> i & 1
        dm = self.d(s)
        if dm[-1][1] < 1 << i and dm[0][0] >= 0:
            return 0
        if dm[0][0] >= 0 and dm[0][0] >> i == dm[-1][1] >> i:
            return dm[0][0] >> i & 1
        if isize(dm) <= 64:
            vs = {x >> i & 1 for x in ivals(dm)}
            if len(vs) == 1:
                return vs.pop()
        return (s, i)

    def ib(self, lin):
        """interval bounds of a linear expression"""
        lo = hi = lin[0]
        for s, c in lin[1]:
            dm = self.d(s)
            if c > 0:
                lo += c * dm[0][0]
                hi += c * dm[-1][1]
            else:
                lo += c * dm[-1][1]
                hi += c * dm[0][0]
        return lo, hi

    def const(self, lin):
        lo, hi = self.ib(lin)
        return lo if lo == hi else None

    def set_dom(self, s, dm):
        cur = self.d(s)
        nd = iand(cur, dm)
        if not nd:
            raise Infeasible()
        if nd == cur:
            return
        S = self.S
        y = S.t[s]
        if y.defn is None and isize(nd) <= 64:
            # constraints on values computed from s alone
            for q in S.deriv.get(s, ()):
                qd = self.dom.get(q)
                if qd is not None:
                    nd = inorm([(x, x) for x in ivals(nd) if any(l <= r <= h for r in (S.evals(q, {s: x}),) if r is not None for l, h in qd)
                                or S.evals(q, {s: x}) is None])
                    if not nd:
                        raise Infeasible()
        self.dom[s] = nd
        self.touch(s)
        if y.defn is not None:
            if len(y.bases) == 1:
                b = next(iter(y.bases))
                bd = self.d(b)
                if isize(bd) <= ENUM:
                    keep = []
                    for x in ivals(bd):
                        r = S.evals(s, {b: x})
                        if r is None or any(l <= r <= h for l, h in nd):
                            keep.append((x, x))
                    self.set_dom(b, inorm(keep))
            if y.defn[0] == 'bits':
                if nd[0][0] == nd[-1][1]:
                    v = nd[0][0]
                    for i, b in enumerate(y.defn[1]):
                        if isinstance(b, tuple):
                            self.set_bit(b[0], b[1], v >> i & 1)
                        elif b is not None and b != (v >> i & 1):
                            raise Infeasible()
                else:
                    # a non-zero derived value with one undetermined bit fixes that bit
                    if nd[0][0] > 0 and cur[0][0] == 0:
                        un = [b for b in (self.bit(*b) if isinstance(b, tuple) else b for b in y.defn[1]) if b not in (0,)]
                        if len(un) == 1 and isinstance(un[0], tuple):
                            self.set_bit(un[0][0], un[0][1], 1)
            elif y.defn[0] == 'lin':
                lo, hi = self.ib(y.defn[1])
                if lo >= 0 and hi < 1 << y.defn[2] and len(y.defn[1][1]) == 1:
                    (b, c), = y.defn[1][1]
                    k = y.defn[1][0]
                    if c == 1:
                        self.set_dom(b, inorm([(l - k, h - k) for l, h in nd]))
                    elif c == -1:
                        self.set_dom(b, inorm([(k - h, k - l) for l, h in nd]))

    def set_bit(self, s, i, v):
        y = self.S.t[s]
        if y.defn is not None and y.defn[0] == 'bits':
            b = y.defn[1][i] if i < len(y.defn[1]) else 0
            if isinstance(b, tuple):
                return self.set_bit(b[0], b[1], v)
            if b is not None:
                if b != v:
                    raise Infeasible()
                return
        m, x = self.kb.get(s, (0, 0))
        if m >> i & 1:
            if x >> i & 1 != v:
                raise Infeasible()
            return
        self.kb[s] = (m | 1 << i, x | v << i)
        self.touch(s)
        self.d(s)

    # -- relational part
    def rows_for(self, lin):
        """LP rows for the constraints connected to lin; -> (order, rows, los)"""
        syms = {s for s, _ in lin[1]}
        cons = list(self.cons)
        used = []
        ch = True
        while ch:
            ch = False
            rest = []
            for c in cons:
                for s, _ in c[1]:
                    if s in syms:
                        used.append(c)
                        for s2, _ in c[1]:
                            syms.add(s2)
                        ch = True
                        break
                else:
                    rest.append(c)
            cons = rest
        order = sorted(syms)
        idx = {s: i for i, s in enumerate(order)}
        los = []
        rows = []
        n = len(order)
        for i, s in enumerate(order):
            dm = self.d(s)
            lo, hi = dm[0][0], dm[-1][1]
            los.append(lo)
            if hi < 1 << 61:
                r = [0] * (n + 1)
                r[i] = -1
                r[n] = hi - lo
                rows.append(r)
        for c in used:
            r = [0] * (n + 1)
            k = c[0]
            for s, co in c[1]:
                r[idx[s]] = co
                k += co * los[idx[s]]
            r[n] = k
            rows.append(r)
        return order, idx, rows, los

    def lmin(self, lin):
        """greatest provable integer lower bound of lin (None: unbounded/unknown)"""
        if not lin[1]:
            return lin[0]
        lo, hi = self.ib(lin)
        if lo == hi or not self.cons:
            return lo
        order, idx, rows, los = self.rows_for(lin)
        obj = [0] * len(order)
        k = lin[0]
        for s, c in lin[1]:
            obj[idx[s]] = c
            k += c * los[idx[s]]
        _stat['lp'] += 1
        st, v = lp_min(rows, obj)
        if st == 2:
            raise Infeasible()
        if st != 0:
            return lo
        num, den = v
        r = -((-num) // den) + k  # ceil
        return max(lo, r)

    def lmax(self, lin):
        r = self.lmin(lscale(lin, -1))
        return None if r is None else -r

    def prove(self, lin):
        """is lin >= 0 in every concretisation?"""
        lo, hi = self.ib(lin)
        if lo >= 0:
            return True
        if hi < 0 or not lin[1]:
            return False
        _stat['prove'] += 1
        cs = self.cons
        for c in cs:
            r = lsub(lin, c)
            if len(r[1]) < len(lin[1]) or len(r[1]) <= 1:
                if self.ib(r)[0] >= 0:
                    return True
        if not cs:
            return False
        r = self.lmin(lin)
        return r is not None and r >= 0

    def proveq(self, a, b):
        if a == b:
            return True
        d = lsub(a, b)
        if not d[1]:
            return d[0] == 0
        return self.prove(d) and self.prove(lscale(d, -1))

    def assume(self, lin):
        """add lin >= 0; raises Infeasible when the result is known empty"""
        lin = lnorm(lin)
        if not lin[1]:
            if lin[0] < 0:
                raise Infeasible()
            return
        lo, hi = self.ib(lin)
        if lo >= 0:
            return
        if hi < 0:
            raise Infeasible()
        if len(lin[1]) == 1:
            (s, c), = lin[1]
            if c > 0:
                b = -(lin[0] // c)  # c*s + k >= 0 -> s >= ceil(-k/c)
                self.set_dom(s, ((b, 1 << 70),))
            else:
                b = lin[0] // -c
                self.set_dom(s, ((-(1 << 70), b),))
            if self.cons:
                self._recheck(s)
            return
        if lin in self.cset:
            return
        if self.prove((-lin[0] - 1, tuple((s, -c) for s, c in lin[1]))):
            raise Infeasible()
        self.cons = self.cons + (lin,)
        self.cset = self.cset | {lin}
        for s, c in lin[1]:
            rest = (lin[0], tuple(x for x in lin[1] if x[0] != s))
            rl, rh = self.ib(rest)
            if c > 0:
                self.set_dom(s, ((-(rh // c), 1 << 70),))
            else:
                self.set_dom(s, ((-(1 << 70), rh // -c),))

    def _recheck(self, s):
        for c in self.cons:
            for t, _ in c[1]:
                if t == s:
                    if self.ib(c)[1] < 0:
                        raise Infeasible()
                    break
        if len(self.cons) > 1:
            # full feasibility of the component
            self.lmin(ls(s)) if not self.d(s)[0][0] == self.d(s)[-1][1] else self._feas(s)

    def _feas(self, s):
        order, idx, rows, los = self.rows_for(ls(s))
        if len(order) > 1:
            _stat['lp'] += 1
            st, v = lp_min(rows, [0] * len(order))
            if st == 2:
                raise Infeasible()

    def assume_eq(self, a, b):
        d = lsub(a, b)
        if not d[1]:
            if d[0]:
                raise Infeasible()
            return
        if len(d[1]) == 1:
            (s, c), = d[1]
            if d[0] % c:
                raise Infeasible()
            self.set_dom(s, iset(-d[0] // c))
            if self.cons:
                self._recheck(s)
            return
        self.assume(d)
        self.assume(lscale(d, -1))

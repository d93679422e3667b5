"""C37: the generic hash table finds exactly what is in it."""
import itertools

from tsa import load
from .ops import *

RULE = ('every table operation is interpreted on every enumerated shape of the table that satisfies the representation invariant; hash values beyond '
        'the bucket bits and all address bits the elements share are symbolic bits, addresses differ in four positions, and tag comparisons between '
        'different elements have both outcomes; results, callbacks, counters and every slot are compared with the definition, and the invariant is '
        'shown to hold again')
KINDS = ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free', 'vla')
ALL = (1 << 64) - 1
W = (47, 46, 20, 0)             # address bits in which elements may differ
LOW = 5                         # hash bits that are concrete
HOLD = {}


class Bits(Engine):
    """engine for pointers that are kept as integers: bitwise operations between symbolic bits, and pointers that stay integers"""

    def binop(self, st, op, w, a, b):
        if op in ('urem', 'udiv') and isinstance(a, Int) and isinstance(b, Int):
            k = st.const(b.l)
            if k and k & (k - 1) == 0:
                op, b = ('and', Int(w, lc(k - 1))) if op == 'urem' else ('lshr', Int(w, lc(k.bit_length() - 1)))
        if op in ('and', 'or', 'xor') and isinstance(a, Int) and isinstance(b, Int) and w == 64:
            if st.const(a.l) is None and st.const(b.l) is None:
                return self.from_bits(st, [self.bit2(st, op, x, y) for x, y in zip(self.bits(st, a), self.bits(st, b))], w)
            if op == 'and':
                # the low bits of a hash are known
                k, v = (a, b) if st.const(a.l) is not None else (b, a)
                k = st.const(k.l) & ALL
                return self.from_bits(st, [x if k >> i & 1 else 0 for i, x in enumerate(self.bits(st, v))], w)
        if op == 'add' and isinstance(a, Int) and isinstance(b, Int) and w == 64 and (a.l[1] or b.l[1]):
            A, B = list(self.bits(st, a)), list(self.bits(st, b))
            if all(x == 0 or y == 0 for x, y in zip(A, B)):
                return self.from_bits(st, [y if x == 0 else x for x, y in zip(A, B)], w)
        return Engine.binop(self, st, op, w, a, b)

    def bit2(self, st, op, x, y):
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if isinstance(x, int):
                return x & y if op == 'and' else x | y if op == 'or' else x ^ y
            if op == 'and':
                return x if y else 0
            if op == 'or':
                return 1 if y else x
            if not y:
                return x
        elif x == y:
            return 0 if op == 'xor' else x
        if isinstance(y, tuple) and y < x:
            x, y = y, x
        return (self.S.derived(('bit', op, x, y), 1, ((0, 1),), 'bit'), 0)

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'p' and (isinstance(a, Int) or isinstance(b, Int)):
            a, b = (Int(64, lc(0)) if v is NULL else v for v in (self.resolve(st, a), self.resolve(st, b)))
            if not (isinstance(a, Int) and isinstance(b, Int)):
                return FALSE if pred == 'eq' else TRUE
            ty = ('i', 64)
        if ty == ('i', 64) and pred in ('eq', 'ne') and isinstance(a, Int) and isinstance(b, Int):
            A, B = self.bits(st, a), self.bits(st, b)
            if A == B:
                return TRUE if pred == 'eq' else FALSE
            if any(isinstance(x, int) and isinstance(y, int) and x != y for x, y in zip(A, B)):
                return FALSE if pred == 'eq' else TRUE
        return Engine.icmp(self, st, pred, ty, a, b)

    def scan(self, st, x, a, rev):
        """leading or trailing zeros"""
        b = list(self.bits(st, a[0]))
        n = 0
        for v in b[::-1] if rev else b:
            if v == 1:
                return [(st, Int(a[0].w, lc(n)))]
            if v != 0:
                break
            n += 1
        return [(st, Int(a[0].w, ls(self.S.fresh(a[0].w, 'zeros', n, a[0].w))))]

    def cast(self, st, op, fty, v, ty):
        if op in ('inttoptr', 'ptrtoint') and isinstance(v, Int):
            return v
        return Engine.cast(self, st, op, fty, v, ty)

    def load_const(self, st, o, off, ty, size, ins):
        os_ = st.mem.get(o.id)
        v = os_.c.get((off, size)) if os_ is not None else None
        if ty[0] == 'p' and isinstance(v, Int) and st.const(v.l) != 0:
            return v
        return Engine.load_const(self, st, o, off, ty, size, ins)


class World:
    """addr: positions set in W per element; home: low hash bits per element"""

    def __init__(self, r, mod, addr, home, b, slots, vis, perfect, what, more=False):
        self.r, self.m, self.what, self.b, self.home = r, mod, what, b, home
        e = self.e = Bits(mod)
        e.peel = e.unroll = 80
        e.trace_alloc = True
        e.alloc_fail = False
        st = self.st = e.new_state()
        base = e.S.fresh(64, 'address')
        up = max(W)
        self.p = []
        for a in addr:
            bits = [(st.bit(base, i) if i < up else 0) for i in range(64)]
            for k, i in enumerate(W):
                bits[i] = a[k]
            self.p.append(e.from_bits(st, bits, 64))
        self.h = []
        for k, x in enumerate(home):
            s = e.S.fresh(64, 'hash%d' % k)
            self.h.append(e.from_bits(st, [(x >> i & 1) if i < LOW else st.bit(s, i) for i in range(64)], 64))
        self.t = e.newobj('table', 'arg', lc(mod.sizeof(('s', 'struct.shl_htable'))), None, 'lazy')
        self.compare, self.rehash = (PSym(e.newpsym(n, False)) for n in ('compare', 'rehash'))
        self.priv = e.newobj('priv', 'opaque', None, None, 'opaque')
        e.callback = self.callback
        e.stubs['llvm.ctlz.i64'] = lambda e, st, x, a: e.scan(st, x, a, True)
        e.stubs['llvm.cttz.i64'] = lambda e, st, x, a: e.scan(st, x, a, False)
        self.out = e.newobj('out', 'arg', lc(8), None, 'lazy')
        self.off = lambda f: mod.member('shl_htable', 'compare')['off'] if f == 'compare' else \
            mod.member('shl_htable', 'htable')['off'] + mod.member('shl_htable_int', f)['off']
        if b is None:
            return
        V = sum(1 << i for i in vis)
        self.mask = ALL & ~V
        self.pb = 0 if not perfect else (self.mask & -self.mask)
        for f, v in (('bits', Int(32, lc(b))), ('elems', len([x for x in slots if isinstance(x, int)])), ('deleted', HOLD[b][1] - len([x for x in slots if isinstance(x, int)]) if more else slots.count('D')), ('max', HOLD[b][0]),
                     ('max_with_deleted', HOLD[b][1]), ('common_mask', self.mask), ('perfect_bit', self.pb), ('priv', Ptr(self.priv.id)),
                     ('rehash', self.rehash), ('compare', self.compare)):
            self.set(f, v)
        # address bits common to all
        cb = e.bits(st, self.p[0])
        used = [k for k in slots if isinstance(k, int)]
        if used:
            cb = e.bits(st, self.p[used[0]])
        self.set('common_bits', e.from_bits(st, [x if self.mask >> i & 1 else 0 for i, x in enumerate(cb)], 64))
        self.tab = e.newobj('slots', 'heap', lc(8 << b), None, 'zero')
        for i, k in enumerate(slots):
            v = Int(64, lc(0))
            if k == 'D':
                v = Int(64, lc(1))
            elif k is not None:
                v = e.from_bits(st, self.entry(st, k, b, self.mask, self.pb, i), 64)
            e.store_const(st, self.tab, 8 * i, v, 8)
        self.set('table', Ptr(self.tab.id))

    def entry(self, st, k, b, mask, pb, slot):
        e = self.e
        p, h = e.bits(st, self.p[k]), e.bits(st, self.h[k])
        f = [e.bit2(st, 'xor', x, y) for x, y in zip(h, h[b:] + [0] * b)]
        at = slot == self.home[k] & (1 << b) - 1
        return [p[i] if not mask >> i & 1 else int(at) if pb >> i & 1 else f[i] for i in range(64)]

    def set(self, f, v):
        if isinstance(v, int):
            v = Int(64, lc(v))
        self.e.store_const(self.st, self.t, self.off(f), v, v.w // 8 if isinstance(v, Int) else 8)

    def get(self, s, f, w=64):
        return self.e.resolve(s, self.e.load_const(s, self.t, self.off(f), ('p',) if f in ('table', 'rehash', 'compare', 'priv') else ('i', w), w // 8, None))

    def num(self, s, f, w=64):
        v = self.get(s, f, w)
        k = s.const(v.l) if isinstance(v, Int) else None
        return None if k is None else k & (1 << w) - 1

    def which(self, s, v):
        """element an address belongs to"""
        v = self.e.resolve(s, v)
        if not isinstance(v, Int):
            return None
        b = list(self.e.bits(s, v))
        for k, p in enumerate(self.p):
            if list(self.e.bits(s, p)) == b:
                return k
        return None

    def callback(self, st, x, name, vals):
        e = self.e
        ks = [self.which(st, v) for v in vals]
        if name == 'rehash':
            self.r.ob('callback arguments', ks[0] is not None and e.resolve(st, vals[1]) == Ptr(self.priv.id), self.what, self.what + ': the hash function gets something else')
            if ks[0] is None:
                raise Dead()
            return [(st, self.h[ks[0]])]
        if name == 'compare':
            self.r.ob('callback arguments', ks[0] is not None and ks[1] is not None, self.what, self.what + ': the comparison gets something that is not in the table')
            return [(st, TRUE if ks[0] == ks[1] and ks[0] is not None else FALSE)]
        st.ev(('visit', name, ks[0], e.resolve(st, vals[1])))
        return [(st, None)]

    # -- the invariant
    def invariant(self, s, want):
        """None or what is wrong with the table in state s, which should hold the elements in `want`"""
        e = self.e
        b = self.num(s, 'bits', 32)
        tab = self.get(s, 'table')
        if b is None or not isinstance(tab, Ptr):
            return 'no definite table'
        if b == 0:
            ok = not want and tab.o == self.t.id and s.const(tab.l) == self.off('perfect_bit') and self.num(s, 'perfect_bit') == 0
            ok = ok and self.num(s, 'elems') == 0 and self.num(s, 'deleted') == 0 and self.num(s, 'max') == 0
            return None if ok else 'not a proper empty table'
        o = e.objs[tab.o]
        if s.const(o.size) != 8 << b or s.const(tab.l) != 0:
            return 'the table does not have 2^bits slots'
        if self.get(s, 'rehash') != e.resolve(s, self.rehash) or self.get(s, 'compare') != e.resolve(s, self.compare):
            return 'its functions changed'
        mask, pb = self.num(s, 'common_mask'), self.num(s, 'perfect_bit')
        if mask is None or pb is None or pb & (pb - 1) or pb & ~mask:
            return 'mask %s and perfect bit %s' % (mask, pb)
        if HOLD and (self.num(s, 'max'), self.num(s, 'max_with_deleted')) != HOLD.get(b):
            return 'the limits are not those of its size'
        c = list(e.bits(s, self.get(s, 'common_bits')))
        if any(x != 0 and not mask >> i & 1 for i, x in enumerate(c)):
            return 'common bits outside the mask'
        n, left, dead, full = 1 << b, sorted(want), 0, []
        for i in range(n):
            v = e.load_const(s, o, 8 * i, ('i', 64), 8, None)
            if not isinstance(v, Int):
                return 'slot %d is undefined' % i
            k = s.const(v.l)
            full.append(k != 0)
            if k == 0:
                continue
            if k == 1:
                dead += 1
                continue
            x = list(e.bits(s, v))
            p = [x[j] if not mask >> j & 1 else c[j] for j in range(64)]
            own = [q for q in left if list(e.bits(s, self.p[q])) == p]
            if not own:
                return 'slot %d holds none of the elements that should be left' % i
            left.remove(own[0])
            if x != self.entry(s, own[0], b, mask, pb, i):
                return 'the tag of element %d in slot %d does not match its hash' % (own[0], i)
            if not any(x[j] == 1 for j in range(1, 64) if not mask >> j & 1):
                return 'the entry in slot %d may be taken for an empty or deleted one' % i
        if left:
            return 'element %s is lost' % left
        for i in range(n):
            v = e.load_const(s, o, 8 * i, ('i', 64), 8, None)
            if s.const(v.l) in (0, 1):
                continue
            x = list(e.bits(s, v))
            p = [x[j] if not mask >> j & 1 else c[j] for j in range(64)]
            k = [q for q in want if list(e.bits(s, self.p[q])) == p][0]
            j = self.home[k] & n - 1
            while j != i:
                if not full[j]:
                    return 'an empty slot separates element %d from its bucket' % k
                j = (j + 1) % n
        el, de = self.num(s, 'elems'), self.num(s, 'deleted')
        # a slot that is used again stays counted as deleted until the next rehash
        if el != len(want) or de is None or de < dead or (HOLD and el + de > HOLD[b][1]):
            return 'elements or deleted slots are miscounted'
        if all(full):
            return 'no slot is free'
        return None

    # -- operations
    def call(self, fn, args, alloc=False):
        self.e.alloc_fail = alloc
        st = self.st.clone()
        ev = len(st.events())
        res = self.e.run(fn, [Ptr(self.t.id)] + args, st)
        self.r.ob('returns', bool(res), self.what, '%s: %s() never returns' % (self.what, fn))
        return [(s, ret, s.events()[ev:]) for s, ret in res]

    def keeps(self, s, want, fn):
        x = self.invariant(s, want)
        self.r.ob('table intact', x is None, self.what, lambda: '%s: after %s(): %s' % (self.what, fn, x))

    def found(self, s, ret, k, there, fn, out):
        r, e = self.r, self.e
        v = decided(e, s, ret)
        if r.ob('result', v == int(there), self.what, lambda: '%s: %s() of %s element %d says %s' % (self.what, fn, 'present' if there else 'absent', k, v)) and there and out:
            got = self.which(s, e.load_const(s, self.out, 0, ('p',), 8, None))
            r.ob('result', got == k, self.what, lambda: '%s: %s() of element %d gives %s' % (self.what, fn, k, got))

    def everything(self, present, new):
        r, e = self.r, self.e
        st = self.st
        for k in present + [new]:
            there = k in present
            for out in (True, False):
                for s, ret, ev in self.call('shl_htable_lookup', [self.p[k], self.h[k], Ptr(self.out.id) if out else NULL]):
                    self.found(s, ret, k, there, 'shl_htable_lookup', out)
                    if out:
                        self.keeps(s, present, 'shl_htable_lookup')
                if not there and not out:
                    continue
                for s, ret, ev in self.call('shl_htable_remove', [self.p[k], self.h[k], Ptr(self.out.id) if out else NULL]):
                    self.found(s, ret, k, there, 'shl_htable_remove', out)
                    self.keeps(s, [q for q in present if q != k], 'shl_htable_remove')
        self.insert(present, new)

    def insert(self, present, new):
        r, e = self.r, self.e
        for s, ret, ev in self.call('shl_htable_insert', [self.p[new], self.h[new]], True):
            v = decided(e, s, ret)
            failed = any(q[0] == 'oom' for q in ev)
            r.count('insertions')
            if v == 0:
                self.keeps(s, present + [new], 'shl_htable_insert')
            else:
                r.ob('result', v == -12, self.what, lambda: '%s: shl_htable_insert() gives %s' % (self.what, v))
                self.keeps(s, present, 'failing shl_htable_insert')

    def walks(self, present):
        r, e = self.r, self.e
        cb, ctx = PSym(e.newpsym('visitor', False)), e.newobj('ctx', 'opaque', None, None, 'opaque')
        for fn in ('shl_htable_visit', 'shl_htable_clear'):
            for f in (cb, NULL):
                for s, ret, ev in self.call(fn, [f, Ptr(ctx.id)]):
                    got = [q[2] for q in ev if q[0] == 'visit' and q[3] == Ptr(ctx.id)]
                    want = [] if f is NULL else sorted(present)
                    r.ob('visited', None not in got and sorted(got) == want, self.what, lambda: '%s: %s() visits %s' % (self.what, fn, got))
                    self.keeps(s, present if fn == 'shl_htable_visit' else [], fn)


def decided(e, s, ret):
    if isinstance(ret, Cond):
        k = e.decide(s, ret)
        return None if k is None else int(k)
    if not isinstance(ret, Int):
        return None
    k = s.const(e.norm_s(s, ret))
    return abs(k) if ret.w == 1 and k is not None else k


FAMILIES = (
    ('1000', '1010', '1001', '1011', '1100'),
    ('1100', '0100', '1000', '0101', '0110'),
    ('0100', '1000', '0110', '1100', '0101'),
    ('1111', '1011', '0111', '1101', '0100'),
    ('1001', '1000', '1011', '1010', '0101'),
)


def shapes(b, most):
    """[(slots, homes of the elements)] that satisfy the invariant"""
    n = 1 << b
    for filled in itertools.product((None, 'D', 'E'), repeat=n):
        used = [i for i in range(n) if filled[i] == 'E']
        if None not in filled or len(used) > most or len(used) > HOLD[b][0] or len(used) + filled.count('D') > HOLD[b][1]:
            continue
        homes = []
        for i in used:
            hs, j = [i], i
            while filled[(j - 1) % n] is not None and len(hs) < n:
                j = (j - 1) % n
                hs.append(j)
            homes.append(hs)
        for hs in itertools.product(*homes):
            yield filled, used, hs


def visible(addr, extra):
    """positions that have to be visible for these elements"""
    v = {W[i] for i in range(4) if len({a[i] for a in addr}) > 1}
    for a in addr:
        if not any(a[i] and W[i] in v and W[i] for i in range(4)):
            v.add(next(W[i] for i in range(4) if a[i]))
    for a in addr:
        if not any(a[i] and W[i] in v and W[i] for i in range(4)):
            return None
    return set(W) if extra else v


def one(r, job):
    b, filled, used, hs, fam, extra, perfect, nh, more = job
    mod = load.module('lib')
    addr = [tuple(map(int, a)) for a in FAMILIES[fam]]
    n = len(used)
    new = 4
    present = list(range(n))
    vis = visible([addr[k] for k in present], extra)
    if vis is None:
        return
    slots = list(filled)
    for k, i in enumerate(used):
        slots[i] = k
    # hash bits above the bucket bits differ between elements
    home = [0] * 5
    for k in range(5):
        home[k] = (hs[k] if k < n else nh if k == new else 0) | (k * 5 + fam & (1 << LOW - b) - 1) << b
    what = 'a table of %d slots with %d elements' % (1 << b, n)
    r.count('shapes')
    w = World(r, mod, addr, home, b, slots, vis, perfect, what, more)
    x = w.invariant(w.st, present)
    if x is not None:
        raise ir.IRError('bad start state: %s' % x)
    if nh == 0 and not more:
        w.everything(present, new)
    else:
        w.insert(present, new)
    if nh == 0 and fam == 0 and not more:
        w.walks(present)
    r.engine(w.e, KINDS)


def initial(r, job):
    """a new table"""
    mod = load.module('lib')
    fam = job
    addr = [tuple(map(int, a)) for a in FAMILIES[fam]]
    w = World(r, mod, addr, [3, 1, 2, 0, 7], None, None, None, None, 'a new table')
    for s, ret, ev in w.call('shl_htable_init', [w.compare, w.rehash, Ptr(w.priv.id)]):
        w.keeps(s, [], 'shl_htable_init')
        w.st = s
        w.everything([], 4)
        w.walks([])
    r.engine(w.e, KINDS)


def limits():
    """the limits the code sets for every size it grows to"""
    r = Rec()
    mod = load.module('lib')
    w = World(r, mod, [tuple(map(int, a)) for a in FAMILIES[0]], [0, 1, 2, 3, 4], None, None, None, None, 'a new table')
    res = w.call('shl_htable_init', [w.compare, w.rehash, Ptr(w.priv.id)])
    if not res:
        return
    s = res[0][0]
    for b in range(1, 5):
        # a full table of any size grows
        s = s.clone()
        w.st = s
        w.set('max', 0)
        w.e.alloc_fail = False
        res = w.e.run('shl_htable_insert', [Ptr(w.t.id), w.p[0], w.h[0]], s)
        res = [t for t, ret in res if w.num(t, 'bits', 32) == b]
        if not res:
            return
        HOLD[b] = (w.num(res[0], 'max'), w.num(res[0], 'max_with_deleted'))
        res = w.e.run('shl_htable_remove', [Ptr(w.t.id), w.p[0], w.h[0], Ptr(w.out.id)], res[0])
        if not res:
            return
        s = res[0][0]


def check(Check):
    c = Check('C37', 'other', RULE)
    load.module('lib')
    limits()
    if not c.ob('limits', sorted(HOLD) == [1, 2, 3, 4], 'limits', 'a new table does not double when it is full, or an element cannot be removed again'):
        return c.finish()
    for b, (m, d) in HOLD.items():
        c.ob('limits', m is not None and d is not None and 0 < m <= d < 1 << b, 'limits', 'a table of %d slots may hold %s elements and %s with deleted ones' % (1 << b, m, d))
    th = c.thorough
    jobs = [(initial, f) for f in range(len(FAMILIES))]
    seen = 0
    for b, most, step in ((1, 1, 1), (2, 3, 1 if th else 3), (3, 4 if th else 3, 997 if th else 7001)):
        for i, (filled, used, hs) in enumerate(shapes(b, most)):
            for fam in range(len(FAMILIES)):
                for extra in (False, True):
                    for perfect in (True, False):
                        for nh in range(1 << b):
                            for more in (False, True):
                                seen += 1
                                if seen % step == 0:
                                    jobs.append((one, (b, filled, used, hs, fam, extra, perfect, nh, more)))
    pool(c, jobs, lambda r, j: j[0](r, j[1]))
    c.floor('shapes', c.cov.get('shapes', 0), 5000)
    c.floor('insertions', c.cov.get('insertions', 0), 8000)
    return c.finish()

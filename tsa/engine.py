"""Abstract interpreter over LLVM IR.

Trace-partitioned abstract interpretation: states are propagated along the control-flow graph in
topological order of the loop-nesting forest, callees are interpreted in their calling context,
loop heads are unrolled while their exit test is decided by the abstract state and otherwise solved by
join + widening to a post-fixpoint.  The memory model is field sensitive (byte offsets resolved from
the data layout), values are linear expressions over abstract variables, pointers are object+offset.
"""
import heapq
import sys
from . import ir
from .num import *
from .num import _stat

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values
AGG = ('s', 't', 'a')         # kinds of type whose values have members


class Int:
    __slots__ = ('w', 'l')

    def __init__(self, w, l):
        self.w = w
        self.l = l

    def __eq__(self, o):
        return isinstance(o, Int) and self.w == o.w and self.l == o.l

    def __hash__(self):
        return hash((self.w, self.l))

    def __repr__(self):
        return 'i%d:%s' % (self.w, show(self.l))


def show(l):
    if not l[1]:
        return str(l[0])
    return ('%d' % l[0] if l[0] else '') + ''.join('%+d*s%d' % (c, s) for s, c in l[1])


class Ptr:
    """pointer into a known object; subs: enclosing array sub-objects [(start lin, byte length)]"""
    __slots__ = ('o', 'l', 'subs')

    def __init__(self, o, l=(0, ()), subs=()):
        self.o = o
        self.l = l
        self.subs = subs

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.o == x.o and self.l == x.l

    def __hash__(self):
        return hash((self.o, self.l))

    def __repr__(self):
        return 'ptr(%s%s)' % (self.o, '' if self.l == (0, ()) else '+' + show(self.l))


class PSym:
    """pointer whose target (NULL or an object) is not decided yet"""
    __slots__ = ('p', 'l', 'subs')

    def __init__(self, p, l=(0, ()), subs=()):
        self.p = p
        self.l = l
        self.subs = subs

    def __eq__(self, x):
        return isinstance(x, PSym) and self.p == x.p and self.l == x.l

    def __hash__(self):
        return hash(('psym', self.p, self.l))

    def __repr__(self):
        return 'psym(%s)' % (self.p,)


class Const:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL = Const('NULL')
UNDEF = Const('UNDEF')
FLT = Const('FLT')


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(('fn', self.name))

    def __repr__(self):
        return 'fn:' + self.name


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p', 'w')

    def __init__(self, p, w):
        self.p = p
        self.w = w


class Agg:
    """structure held in registers: the values of its members"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Cond:
    """undecided i1 value"""
    __slots__ = ('k', 'a', 'neg')

    def __init__(self, k, a, neg=False):
        self.k = k
        self.a = a
        self.neg = neg

    def inv(self):
        return Cond(self.k, self.a, not self.neg)

    def __eq__(self, o):
        return isinstance(o, Cond) and (o.k, o.a, o.neg) == (self.k, self.a, self.neg)

    def __hash__(self):
        return hash((self.k, self.a, self.neg))

    def __repr__(self):
        return 'cond(%s%s %r)' % ('!' if self.neg else '', self.k, self.a)


TRUE = Int(1, lc(1))
FALSE = Int(1, lc(0))


class Obj:
    def __init__(self, id, name, kind, size=None, ty=None, init='lazy'):
        self.id = id
        self.name = name
        self.kind = kind          # arg heap alloca global opaque
        self.size = size          # Lin (bytes) or None (unbounded/unknown)
        self.ty = ty              # IR type for leaf lookup
        self.init = init          # lazy | undef | zero | const | opaque
        self.g = None
        self.hook = None          # content hook object for arrays with summarised elements
        self.initval = None       # callable(eng, st, obj, off, ty) -> value or None
        self.sname = None         # debug-info struct name
        self.mayalias = None      # objects of the same class may coincide
        self.ro = False
        self.loc = None

    def __repr__(self):
        return 'obj<%s>' % self.name


SIZES = set()


class Cells(dict):
    """(offset, size) -> value; remembers the sizes in use so that overlaps are found without a scan"""
    __slots__ = ()

    def __setitem__(self, k, v):
        if k[1] not in SIZES:
            SIZES.add(k[1])
        dict.__setitem__(self, k, v)

    def overlap(self, lo, hi):
        """the keys that overlap lo..hi-1"""
        if len(self) < 64 or (hi - lo + 16) * len(SIZES) > len(self) or max(SIZES) > 16:
            return [k for k in self if k[0] < hi and lo < k[0] + k[1]]
        return [(o, n) for n in SIZES for o in range(lo - n + 1, hi) if (o, n) in self]


class OS:
    """object state"""
    __slots__ = ('c', 'fill', 'own')

    def __init__(self, c, fill, own):
        self.c = c
        self.fill = fill
        self.own = own


class PInfo:
    def __init__(self, name, nullable, mk, cls=None):
        self.name = name
        self.nullable = nullable
        self.mk = mk
        self.cls = cls


class Split(Exception):
    """re-execute the instruction once per alternative; alternative = callable(state) -> list of states"""

    def __init__(self, alts):
        self.alts = alts


class Dead(Exception):
    """this path ends here"""


class Budget(Exception):
    pass


class Endless(Exception):
    """a loop that is never left: fn, text"""


class State(Num):
    __slots__ = ('S', 'dom', 'kb', 'cons', 'cset', 'pres', 'neq', 'mem', 'tok', 'trace', 'env', 'stack', 'gh',
                 'freed', 'alias', 'depth', 'dc')

    def __init__(self, S):
        self.S = S
        self.dom = {}
        self.kb = {}
        self.dc = {}
        self.cons = ()
        self.cset = frozenset()
        self.pres = {}
        self.neq = frozenset()
        self.mem = {}
        self.tok = object()
        self.trace = None
        self.env = {}
        self.stack = ()
        self.gh = {}
        self.freed = frozenset()
        self.alias = {}
        self.depth = 0

    def clone(self):
        n = State.__new__(State)
        n.S = self.S
        n.dom = dict(self.dom)
        n.kb = dict(self.kb)
        n.dc = dict(self.dc)
        n.cons = self.cons
        n.cset = self.cset
        n.pres = dict(self.pres)
        n.neq = self.neq
        n.mem = dict(self.mem)
        n.tok = object()
        self.tok = object()
        n.trace = self.trace
        n.env = dict(self.env)
        n.stack = self.stack
        n.gh = dict(self.gh)
        n.freed = self.freed
        n.alias = dict(self.alias)
        n.depth = self.depth
        return n

    def ev(self, e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def obs(self, o):
        return self.mem.get(o)

    def wobs(self, o):
        s = self.mem.get(o)
        if s is None:
            s = self.mem[o] = OS(Cells(), (), self.tok)
        elif s.own is not self.tok:
            s = self.mem[o] = OS(Cells(s.c), s.fill, self.tok)
        return s

    def canon(self, o):
        while o in self.alias:
            o = self.alias[o]
        return o


class LoopInfo:
    def __init__(self, f):
        self.f = f
        # dfs for back edges / rpo
        order = []
        state = {}
        back = set()
        stack = [(f.entry, iter(f.blocks[f.entry].succ))]
        state[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) is None:
                    state[s] = 1
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
                elif state[s] == 1:
                    back.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        self.reach = set(order)
        heads = {}
        for u, h in back:
            body = heads.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(p for p in f.blocks[x].pred if p in self.reach)
        self.loops = heads                      # header -> body blocks
        self.parent = {}
        for h in heads:
            best = None
            for h2, b2 in heads.items():
                if h2 != h and h in b2 and (best is None or len(heads[best]) > len(b2)):
                    best = h2
            self.parent[h] = best
        self.inner = {}
        for b in self.reach:
            best = None
            for h, body in heads.items():
                if b in body and (best is None or len(body) < len(heads[best])):
                    best = h
            self.inner[b] = best
        self.topo = {}
        for r in [None] + list(heads):
            self._topo(r)
        self._live()

    def node(self, region, b):
        """node representing block b inside region (header of child loop or b itself)"""
        l = self.inner[b]
        last = None
        while l is not None and l != region:
            last = l
            l = self.parent[l]
        if l != region:
            return None
        return last if last is not None else b

    def _topo(self, region):
        f = self.f
        blocks = self.reach if region is None else self.loops[region]
        succ = {}
        for b in blocks:
            n = self.node(region, b)
            for s in f.blocks[b].succ:
                if s not in blocks:
                    continue
                if s == region:
                    continue
                m = self.node(region, s)
                if m != n:
                    succ.setdefault(n, set()).add(m)
        start = self.node(region, f.entry if region is None else region)
        if region is not None:
            start = region
        seen = set()
        order = []

        def dfs(x):
            st = [(x, iter(sorted(succ.get(x, ()))))]
            seen.add(x)
            while st:
                y, it = st[-1]
                for z in it:
                    if z not in seen:
                        seen.add(z)
                        st.append((z, iter(sorted(succ.get(z, ())))))
                        break
                else:
                    order.append(y)
                    st.pop()
        dfs(start)
        self.topo[region] = {b: i for i, b in enumerate(reversed(order))}

    def _live(self):
        f = self.f
        use = {}
        de = {}
        phiuse = {}
        for b in f.blocks.values():
            u = set()
            d = set()
            for i in b.ins:
                if i.op == 'phi':
                    for v, p in i.a[0]:
                        if v[0] == 'l':
                            phiuse.setdefault((p, b.name), set()).add(v[1])
                    d.add(i.res)
                    continue
                for x in operands(i):
                    if x not in d:
                        u.add(x)
                if i.res:
                    d.add(i.res)
            use[b.name] = u
            de[b.name] = d
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                o = set()
                for s in b.succ:
                    o |= live[s]
                    # phi results are defined at the head of s
                    o |= phiuse.get((b.name, s), set())
                n = use[b.name] | (o - de[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        self.live = live   # live-in excluding phi results (those are in de)
        self.phis = {b.name: [i.res for i in b.ins if i.op == 'phi'] for b in f.blocks.values()}


def operands(i):
    out = []

    def val(v):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'l':
            out.append(v[1])

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'l' and len(x) == 2:
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    op = i.op
    if op == 'br':
        val(i.a[0]) if i.a[0] is not None else None
    elif op == 'switch':
        val(i.a[0])
    elif op == 'ret':
        if i.a[0] is not None:
            val(i.a[0])
    elif op == 'call':
        val(i.a[0])
        for t, v in i.a[1]:
            val(v)
    elif op == 'getelementptr':
        val(i.a[1])
        for t, v in i.a[2]:
            val(v)
    elif op in ('icmp', 'fcmp'):
        val(i.a[2])
        val(i.a[3])
    elif op == 'alloca':
        if i.a[1]:
            val(i.a[1][1])
    elif op in ir.CAST:
        val(i.a[1])
    else:
        walk(list(i.a))
    return out


class Engine:
    def __init__(self, mod):
        self.m = mod
        self.S = Syms()
        self.objs = []
        self.psyms = []
        self.ginfo = {}
        self.memo = {}
        self.li = {}
        self.models = {}
        self.stubs = {}          # fn name -> model, consulted before inlining
        self.obl = {}            # (kind, fn, file, line) -> [ok, fail, msg, example]
        self.kinds = None        # set of obligation kinds to record (None: all)
        self.unroll = 40         # decided iterations followed before widening
        self.peel = 1            # undecided iterations peeled before widening
        self.maxstates = 400
        self.merge = False       # merge states at joins when memory agrees
        self.mergecap = 64
        self.steps = 0
        self.budget = 3000000
        self.fn_used = {}
        self.calls_seen = 0
        self.on_store = None
        self.on_load = None
        self.on_call = None
        self.on_ret = None
        self.heap_hook = None
        self.alloc_fail = True
        self.max_rec = 0        # recursion depth followed exactly
        self.split_len = 0       # enumerate lengths and multi-variable indices over up to this many values
        self.split_idx = 20      # enumerate array indices up to this many values
        self.onrec = None
        self.maxdepth = 40
        self.failed_paths = 0
        self.glob_state = None
        self.widen_log = 0
        from . import models
        models.install(self)

    # ------------------------------------------------------------ objects
    def newobj(self, name, kind, size=None, ty=None, init='lazy', **kw):
        o = Obj(len(self.objs), name, kind, size, ty, init)
        for k, v in kw.items():
            setattr(o, k, v)
        self.objs.append(o)
        return o

    def obj(self, i):
        return self.objs[i]

    def gobj(self, name):
        r = self.ginfo.get(name)
        if r is None:
            g = self.m.globals[name]
            o = self.newobj('@' + name, 'global', lc(self.m.sizeof(g.ty)) if g.init is not None else None, g.ty,
                            'const' if g.const or self.const_global(name) else 'lazy')
            o.g = g
            o.ro = g.const
            r = self.ginfo[name] = o.id
        return r

    def const_global(self, name):
        """non-const globals that no function writes behave as constants (decided on the whole module)"""
        r = self.memo.get('mutglob')
        if r is None:
            r = set()
            for f in self.m.funcs.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'store':
                            for v in (i.a[1],):
                                if v[0] == 'g':
                                    r.add(v[1])
                                elif v[0] == 'gep' and v[2][0] == 'g':
                                    r.add(v[2][1])
            self.memo['mutglob'] = r
        return name not in r and self.m.globals[name].init is not None

    def newpsym(self, name, nullable=True, mk=None, cls=None):
        self.psyms.append(PInfo(name, nullable, mk, cls))
        return len(self.psyms) - 1

    def new_state(self):
        st = State(self.S)
        return st

    # ------------------------------------------------------------ obligations
    def report(self, kind, ok, ins, st, msg=''):
        if self.kinds is not None and kind not in self.kinds:
            return
        f, l = self.m.loc(ins.loc) if ins is not None else ('?', 0)
        key = (kind, ins.fn.name if ins is not None else '?', f, l)
        r = self.obl.get(key)
        if r is None:
            r = self.obl[key] = [0, 0, '', '']
        if ok:
            r[0] += 1
        else:
            r[1] += 1
            if not r[2]:
                r[2] = msg() if callable(msg) else msg
                r[3] = ' > '.join(st.stack) if st is not None else ''

    # ------------------------------------------------------------ integers
    def norm_u(self, st, v, w=None):
        """linear form in [0, 2^w) of an integer value; may request a split"""
        w = w or v.w
        return self._norm(st, v.l, 0, 1 << w, w)

    def norm_s(self, st, v, w=None):
        w = w or v.w
        return self._norm(st, v.l, -(1 << (w - 1)), 1 << w, w)

    def _norm(self, st, l, base, M, w):
        if not l[1]:
            return lc((l[0] - base) % M + base)
        lo, hi = st.ib(l)
        klo = (lo - base) // M
        khi = (hi - base) // M
        if klo == khi:
            return laddk(l, -klo * M) if klo else l
        # try the relational part
        if st.cons:
            a = st.lmin(l)
            b = st.lmax(l)
            lo = max(lo, a)
            hi = min(hi, b)
            klo = (lo - base) // M
            khi = (hi - base) // M
            if klo == khi:
                return laddk(l, -klo * M) if klo else l
        if khi - klo > 3:
            # modulo result of an unbounded computation: keep only the range
            s = self.S.derived(('lin', l, w), w, ((0, (1 << w) - 1),), 'wrap')
            if base == 0:
                return ls(s)
            return self._norm(st, ls(s), base, M, w)
        B = base + (klo + 1) * M
        ge = laddk(l, -B)
        lt = laddk(lscale(l, -1), B - 1)
        raise Split([self._assumer(ge), self._assumer(lt)])

    def _assumer(self, *lins):
        def f(st):
            try:
                for l in lins:
                    st.assume(l)
            except Infeasible:
                return []
            return [st]
        return f

    def as_sym(self, st, l, w):
        """symbol equal to a (normalised) linear form"""
        if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
            return l[1][0][0]
        lo, hi = st.ib(l)
        s = self.S.derived(('lin', l, w), w, ((0, (1 << w) - 1),), 'lin')
        st.assume_eq(ls(s), l)
        return s

    def bits(self, st, v):
        """bit vector (lsb first) of an integer value"""
        w = v.w
        l = v.l
        if not l[1]:
            k = l[0] & ((1 << w) - 1)
            return [k >> i & 1 for i in range(w)]
        if len(l[1]) == 1 and l[0] == 0:
            (s, c), = l[1]
            if c > 0 and c & (c - 1) == 0:
                j = c.bit_length() - 1
                sw = self.S.t[s].w
                dm = st.d(s)
                if dm[0][0] >= 0:
                    return ([0] * j + [st.bit(s, i) if i < sw else 0 for i in range(w)])[:w]
        # low bits of a linear form: k + 2^j*s with k < 2^j multiple etc. -> opaque symbol
        if all(c % 1 == 0 for _, c in l[1]) and len(l[1]) == 1:
            (s, c), = l[1]
            if c > 0 and c & (c - 1) == 0 and l[0] > 0:
                j = c.bit_length() - 1
                if l[0] < 1 << j and st.d(s)[0][0] >= 0:
                    b = [l[0] >> i & 1 for i in range(j)]
                    return (b + [st.bit(s, i) if i < self.S.t[s].w else 0 for i in range(w)])[:w]
        u = self.norm_u(st, v)
        s = self.as_sym(st, u, w)
        return [st.bit(s, i) for i in range(w)]

    def from_bits(self, st, bits, w):
        bits = list(bits)
        if all(b == 0 or b == 1 for b in bits):
            return Int(w, lc(sum(b << i for i, b in enumerate(bits))))
        # maximal single-symbol pattern
        i0 = next(i for i, b in enumerate(bits) if b != 0)
        syms = {b[0] for b in bits if isinstance(b, tuple)}
        if None not in bits and len(syms) == 1:
            s = next(iter(syms))
            n = self.S.t[s].w
            hi = st.d(s)[-1][1]
            lo = st.d(s)[0][0]
            if lo >= 0:
                k = hi.bit_length()
                # pattern: bits[j+i] == st.bit(s,i) for i<k, anything else constant 0
                for j in range(0, i0 + 1):
                    if j + k <= w and all((st.bit(s, i) == bits[j + i]) for i in range(k)) and \
                            all(bits[x] == 0 for x in list(range(0, j)) + list(range(j + k, w))):
                        return Int(w, ls(s, 1 << j))
        t = tuple(bits)
        hi = sum((1 << i) for i, b in enumerate(t) if b != 0)
        lo = sum((1 << i) for i, b in enumerate(t) if b == 1)
        n = max(i for i, b in enumerate(t) if b != 0) + 1
        while t and t[-1] == 0:
            t = t[:-1]
        s = self.S.derived(('bits', t), max(n, 1), ((lo, hi),), 'bits')
        return Int(w, ls(s))

    def fresh(self, w, name='v', lo=0, hi=None):
        return Int(w, ls(self.S.fresh(w, name, lo, hi)))

    def unk(self, st, ty, name='v'):
        if ty[0] == 'i':
            return self.fresh(ty[1], name)
        if ty[0] == 'p':
            return PSym(self.newpsym(name, True, None))
        if ty[0] == 'f':
            return FLT
        if ty[0] == 'v':
            return None
        return UNDEF

    def binop(self, st, op, w, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                x, y = self.resolve(st, a.p), self.resolve(st, b.p)
                if isinstance(x, Ptr) and isinstance(y, Ptr) and st.canon(x.o) == st.canon(y.o):
                    return Int(w, lsub(x.l, y.l))
            if op in ('add', 'sub') and isinstance(a, PInt) and isinstance(b, Int):
                return PInt(self.padd(a.p, b.l if op == 'add' else lscale(b.l, -1)), w)
            return self.fresh(w, 'pint')
        if a is UNDEF or b is UNDEF:
            return self.fresh(w, 'undef')
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'xor' and isinstance(b, Int) and not b.l[1]:
                return a.inv() if b.l[0] & 1 else a
            if op == 'xor' and isinstance(a, Int) and not a.l[1]:
                return b.inv() if a.l[0] & 1 else b
            if isinstance(a, Cond):
                a = self.split_cond(st, a)
            if isinstance(b, Cond):
                b = self.split_cond(st, b)
            return self.binop(st, op, w, a, b)
        M = (1 << w) - 1
        al, bl = a.l, b.l
        if op == 'add':
            return self.clip(st, Int(w, ladd(al, bl)))
        if op == 'sub':
            return self.clip(st, Int(w, lsub(al, bl)))
        ca = st.const(al)
        cb = st.const(bl)
        if ca is not None and cb is not None:
            r = concrete_op(op, w, ca, cb)
            if r is not None:
                return Int(w, lc(r))
            return self.fresh(w, 'ub')
        if op == 'mul':
            if cb is not None:
                return self.clip(st, Int(w, lscale(al, sx(cb, w))))
            if ca is not None:
                return self.clip(st, Int(w, lscale(bl, sx(ca, w))))
            return self.nonlin(st, op, w, a, b)
        if op == 'shl' and cb is not None and cb < w:
            return self.clip(st, Int(w, lscale(al, 1 << cb)))
        if op in ('and', 'or', 'xor'):
            if op == 'or' and (ca == 0 or cb == 0):
                return b if ca == 0 else a
            if w > 1 and (cb is not None or ca is not None) and op == 'and':
                k = cb if cb is not None else ca
                x = a if cb is not None else b
                k &= M
                if k == 0:
                    return Int(w, lc(0))
                # trivially idempotent masks
                if k & (k + 1) == 0:
                    lo, hi = st.ib(x.l)
                    if lo >= 0 and hi <= k:
                        return x
                    if self.masks and k:
                        # value modulo a power of two: one linear form per multiple
                        u = x.l if st.prove(x.l) and st.prove(laddk(lscale(x.l, -1), M)) else self.norm_u(st, x)
                        lo, hi = st.ib(u)
                        if lo < 0 and st.prove(u):
                            lo = 0
                        while hi > 4 * k and st.prove(laddk(lscale(u, -1), hi // 2)):
                            hi //= 2
                        if lo >= 0 and hi // (k + 1) - lo // (k + 1) <= 8:
                            q = lo // (k + 1)
                            while q < hi // (k + 1) and st.prove(laddk(u, -(q + 1) * (k + 1))):
                                q += 1
                            up = laddk(lscale(u, -1), (q + 1) * (k + 1) - 1)
                            if hi // (k + 1) == q or st.prove(up):
                                return Int(w, laddk(u, -q * (k + 1)))
                            raise Split([self._assumer(up), self._assumer(laddk(u, -(q + 1) * (k + 1)))])
            A = self.bits(st, a)
            B = self.bits(st, b)
            out = []
            for x, y in zip(A, B):
                if op == 'and':
                    r = 0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else None
                elif op == 'or':
                    r = 1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else None
                else:
                    r = y if x == 0 else x if y == 0 else \
                        (x ^ y if isinstance(x, int) and isinstance(y, int) else (0 if x == y and x is not None else None))
                out.append(r)
            if None in out:
                return self.nonlin(st, op, w, a, b)
            return self.from_bits(st, out, w)
        if op == 'lshr' and cb is not None and cb < w:
            u = self.norm_u(st, a)
            A = self.bits(st, Int(w, u))
            r = self.from_bits(st, A[cb:] + [0] * cb, w)
            self.relate_div(st, r, u, 1 << cb)
            return r
        if op == 'ashr' and cb is not None and cb < w:
            u = self.norm_s(st, a)
            if st.ib(u)[0] >= 0 or st.prove(u):
                A = self.bits(st, Int(w, u))
                r = self.from_bits(st, A[cb:] + [0] * cb, w)
                self.relate_div(st, r, u, 1 << cb)
                return r
            return self.nonlin(st, op, w, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and cb is not None and cb > 0 and cb < 1 << (w - 1):
            u = self.norm_u(st, a) if op[0] == 'u' else self.norm_s(st, a)
            if op[0] == 's' and not st.prove(u):
                if op == 'sdiv' and self.divisible(u, cb):
                    return Int(w, (u[0] // cb, tuple((s, c // cb) for s, c in u[1])))
                return self.nonlin(st, op, w, a, b)
            if self.divisible(u, cb):
                return Int(w, (u[0] // cb, tuple((s, c // cb) for s, c in u[1]))) if op[1:] == 'div' else Int(w, lc(0))
            q = self.S.derived(('op', 'udiv', w, u, lc(cb)), w, ((0, M // cb),), 'div')
            st.assume(lsub(u, ls(q, cb)))
            st.assume(laddk(lsub(ls(q, cb), u), cb - 1))
            if op[1:] == 'div':
                return Int(w, ls(q))
            r = self.S.derived(('op', 'urem', w, u, lc(cb)), w, ((0, cb - 1),), 'rem')
            st.assume_eq(ls(r), lsub(u, ls(q, cb)))
            return Int(w, ls(r))
        return self.nonlin(st, op, w, a, b)

    def divisible(self, l, k):
        return l[0] % k == 0 and all(c % k == 0 for _, c in l[1])

    def relate_div(self, st, r, u, d):
        """r == u / d: linear consequences"""
        if not r.l[1] or not u[1] or not self.arith:
            return
        try:
            st.assume(lsub(u, lscale(r.l, d)))
            st.assume(laddk(lsub(lscale(r.l, d), u), d - 1))
        except Infeasible:
            raise Dead()

    arith = False
    masks = False           # split x & (2^k - 1) by multiples of 2^k

    def clip(self, st, v):
        """keep lazily wrapped linear forms within a few multiples of the modulus"""
        l = v.l
        M = 1 << v.w
        if not l[1]:
            if not -M < l[0] < M:
                return Int(v.w, lc(l[0] % M))
            return v
        lo, hi = st.ib(l)
        if hi < 2 * M and lo > -2 * M:
            return v
        if v.w >= 64 and hi < 1 << 70 and lo > -(1 << 70):
            return v
        if hi < 5 * M and lo > -5 * M:
            return v
        s = self.S.derived(('lin', l, v.w), v.w, ((0, M - 1),), 'wrap')
        return Int(v.w, ls(s))

    def nonlin(self, st, op, w, a, b):
        s = self.S.derived(('op', op, w, a.l, b.l), w, ((0, (1 << w) - 1),), op)
        if op == 'mul':
            la, ha = st.ib(a.l)
            lb, hb = st.ib(b.l)
            if la >= 0 and lb >= 0 and ha * hb < 1 << w:
                st.set_dom(s, ((la * lb, ha * hb),))
        elif op == 'and':
            for x in (a, b):
                lo, hi = st.ib(x.l)
                if lo >= 0:
                    st.assume(lsub(x.l, ls(s)))
        return Int(w, ls(s))

    # ------------------------------------------------------------ conditions
    def decide(self, st, c):
        """truth of a condition when the state already determines it, else None"""
        r = None
        if isinstance(c, Int):
            k = st.const(c.l)
            return None if k is None else bool(k & 1)
        if c is UNDEF:
            return None
        if c.k == 'ge':
            if st.prove(c.a):
                r = True
            elif st.prove(laddk(lscale(c.a, -1), -1)):
                r = False
        elif c.k == 'z':
            d = c.a
            lo, hi = st.ib(d)
            if lo == hi:
                r = lo == 0
            elif lo > 0 or hi < 0:
                r = False
            elif len(d[1]) == 1:
                (s, co), = d[1]
                if d[0] % co or not any(a <= -d[0] // co <= b for a, b in st.d(s)):
                    r = False
            elif st.prove(laddk(d, -1)) or st.prove(laddk(lscale(d, -1), -1)):
                r = False
            elif st.prove(d) and st.prove(lscale(d, -1)):
                r = True
        elif c.k == 'pnull':
            x = st.pres.get(c.a)
            if x is not None:
                r = x is NULL
        elif c.k == 'palias':
            a, b = st.canon(c.a[0]), st.canon(c.a[1])
            if a == b:
                r = True
            elif c.a in st.neq or (min(a, b), max(a, b)) in st.neq:
                r = False
        elif c.k == 'opq':
            k = st.const(ls(c.a))
            if k is not None:
                r = k == 1
        if r is None:
            return None
        return r != c.neg

    def split_cond(self, st, c):
        """integer value of a condition; requests a split when it is open"""
        k = self.decide(st, c)
        if k is not None:
            return TRUE if k else FALSE
        raise Split([lambda st: self.assume(st, c, True), lambda st: self.assume(st, c, False)])

    def icmp(self, st, pred, ty, a, b):
        if ty[0] == 'p':
            c = self.pcmp(st, a, b)
            if pred == 'eq':
                return c
            if pred == 'ne':
                if isinstance(c, Cond):
                    return c.inv()
                return FALSE if c.l[0] else TRUE
            ra, rb = self.resolve(st, a), self.resolve(st, b)
            if isinstance(ra, Ptr) and isinstance(rb, Ptr) and ra.o == rb.o:
                return self.icmp(st, pred, ('i', 64), Int(64, ra.l), Int(64, rb.l))
            return Cond('opq', self.S.fresh(1, 'pcmp'))
        w = ty[1]
        if a is UNDEF or b is UNDEF or isinstance(a, PInt) or isinstance(b, PInt):
            return Cond('opq', self.S.fresh(1, 'undefcmp'))
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, Cond) and isinstance(b, Int) and not b.l[1] and pred in ('eq', 'ne'):
                t = (b.l[0] & 1) == 1
                return a if t == (pred == 'eq') else a.inv()
            if isinstance(a, Cond):
                a = self.split_cond(st, a)
            if isinstance(b, Cond):
                b = self.split_cond(st, b)
        if pred in ('eq', 'ne'):
            d = lsub(a.l, b.l)
            M = 1 << w
            if not d[1]:
                r = d[0] % M == 0
                return TRUE if r == (pred == 'eq') else FALSE
            lo, hi = st.ib(d)
            if not (-M < lo and hi < M):
                d = lsub(self.norm_u(st, a, w), self.norm_u(st, b, w))
                if not d[1]:
                    return TRUE if (d[0] == 0) == (pred == 'eq') else FALSE
            # canonical sign
            if d[1][0][1] < 0:
                d = lscale(d, -1)
            c = Cond('z', d)
            return c if pred == 'eq' else c.inv()
        if pred[0] == 'u':
            x = self.norm_u(st, a, w)
            y = self.norm_u(st, b, w)
        else:
            x = self.norm_s(st, a, w)
            y = self.norm_s(st, b, w)
        p = pred[1:]
        if p == 'lt':
            d = laddk(lsub(y, x), -1)
        elif p == 'le':
            d = lsub(y, x)
        elif p == 'gt':
            d = laddk(lsub(x, y), -1)
        else:
            d = lsub(x, y)
        if not d[1]:
            return TRUE if d[0] >= 0 else FALSE
        return Cond('ge', d)

    def pcmp(self, st, a, b):
        """Cond/Int1 for pointer equality"""
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if a is UNDEF or b is UNDEF:
            return Cond('opq', self.S.fresh(1, 'undefptr'))
        if b is NULL:
            a, b = b, a
        if a is NULL:
            if b is NULL:
                return TRUE
            if isinstance(b, PSym):
                if self.psyms[b.p].nullable:
                    return Cond('pnull', b.p)
                return FALSE
            return FALSE
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                return TRUE if a.name == b.name else FALSE
            return Cond('opq', self.S.fresh(1, 'fncmp'))
        if isinstance(a, PSym) or isinstance(b, PSym):
            if isinstance(a, PSym) and isinstance(b, PSym) and a.p == b.p and a.l == b.l:
                return TRUE
            for x in (a, b):
                if isinstance(x, PSym) and self.psyms[x.p].mk is not None:
                    # decide null / object first
                    p = x.p
                    raise Split([lambda st: self.assume(st, Cond('pnull', p), True),
                                 lambda st: self.assume(st, Cond('pnull', p), False)])
            return Cond('opq', self.S.fresh(1, 'pcmp'))
        oa, ob = st.canon(a.o), st.canon(b.o)
        if oa == ob:
            return self.icmp(st, 'eq', ('i', 64), Int(64, a.l), Int(64, b.l))
        A, B = self.objs[oa], self.objs[ob]
        if A.mayalias and A.mayalias == B.mayalias and a.l == b.l == (0, ()):
            k = (min(oa, ob), max(oa, ob))
            if k in st.neq:
                return FALSE
            if self.noalias and self.noalias(st, A, B):
                return FALSE
            return Cond('palias', k)
        return FALSE

    noalias = None
    on_alias = None
    on_free = None
    on_copy = None
    trace_alloc = False

    def assume(self, st, c, truth):
        """states (clones) in which condition c has the given truth value"""
        if isinstance(c, Int):
            k = st.const(c.l)
            if k is None:
                c = Cond('z', c.l).inv()
            else:
                return [st] if bool(k & 1) == truth else []
        if c is UNDEF:
            return [st.clone()]
        if c.k == 'pnull' or c.k == 'palias':
            k = self.decide(st, c)
            if k is not None:
                return [st] if k == truth else []
        if c.neg:
            truth = not truth
        st = st.clone()
        try:
            if c.k == 'ge':
                st.assume(c.a if truth else laddk(lscale(c.a, -1), -1))
                return [st]
            if c.k == 'z':
                d = c.a
                if truth:
                    st.assume_eq(d, lc(0))
                    return [st]
                if len(d[1]) == 1:
                    (s, co), = d[1]
                    if d[0] % co == 0:
                        v = -d[0] // co
                        dm = st.d(s)
                        st.set_dom(s, icompl(((v, v),), dm[0][0], dm[-1][1]))
                        if st.cons:
                            st._recheck(s)
                        self.refine_nz(st, s, v)
                    return [st]
                out = []
                st2 = st.clone()
                try:
                    st.assume(laddk(d, -1))
                    out.append(st)
                except Infeasible:
                    pass
                try:
                    st2.assume(laddk(lscale(d, -1), -1))
                    out.append(st2)
                except Infeasible:
                    pass
                return out
            if c.k == 'pnull':
                if truth:
                    self.set_null(st, c.a)
                else:
                    self.set_nonnull(st, c.a)
                return [st]
            if c.k == 'palias':
                if truth:
                    self.set_alias(st, *c.a)
                else:
                    st.neq = st.neq | {c.a}
                return [st]
            if c.k == 'opq':
                dm = st.d(c.a)
                st.set_dom(c.a, iset(1 if truth else 0))
                return [st]
        except Infeasible:
            return []
        raise ir.IRError('cond %r' % (c,))

    def refine_nz(self, st, s, v):
        y = self.S.t[s]
        if v != 0 or y.defn is None or y.defn[0] != 'bits':
            return
        un = []
        for b in y.defn[1]:
            x = st.bit(*b) if isinstance(b, tuple) else b
            if x != 0:
                un.append(x)
        if len(un) == 1 and isinstance(un[0], tuple):
            st.set_bit(un[0][0], un[0][1], 1)

    def set_null(self, st, p):
        st.pres[p] = NULL

    def set_nonnull(self, st, p):
        info = self.psyms[p]
        if info.mk is None:
            o = self.memo.get(('pobj', p))
            if o is None:
                ob = self.newobj(info.name, 'opaque', None, None, 'opaque')
                o = self.memo[('pobj', p)] = ob.id
            st.pres[p] = Ptr(o)
        else:
            st.pres[p] = info.mk(self, st)

    def set_alias(self, st, a, b):
        A, B = st.canon(a), st.canon(b)
        if A == B:
            return
        # keep the lower id as representative
        if A > B:
            A, B = B, A
        sa, sb = st.mem.get(A), st.mem.get(B)
        st.alias[B] = A
        if sb is not None:
            wa = st.wobs(A)
            for k, v in sb.c.items():
                if k in wa.c:
                    u = wa.c[k]
                    if isinstance(u, Int) and isinstance(v, Int):
                        st.assume_eq(u.l, v.l)
                    else:
                        ru, rv = self.resolve(st, u), self.resolve(st, v)
                        if ru is NULL and isinstance(rv, PSym):
                            self.set_null(st, rv.p)
                        elif rv is NULL and isinstance(ru, PSym):
                            self.set_null(st, ru.p)
                        elif (ru is NULL) != (rv is NULL) and not isinstance(ru, PSym) and not isinstance(rv, PSym):
                            raise Infeasible()
                else:
                    wa.c[k] = v
        if self.on_alias:
            self.on_alias(st, A, B)

    # ------------------------------------------------------------ pointers
    def resolve(self, st, v):
        if isinstance(v, PSym):
            r = st.pres.get(v.p)
            if r is None:
                if not self.psyms[v.p].nullable:
                    self.set_nonnull(st, v.p)
                    r = st.pres[v.p]
                else:
                    return v
            if r is NULL:
                return NULL
            if isinstance(r, Fn):
                return r
            if v.l != (0, ()):
                return Ptr(r.o, ladd(r.l, v.l), v.subs)
            return r
        return v

    def padd(self, p, l, subs=None):
        if l == (0, ()) and subs is None:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, ladd(p.l, l), p.subs if subs is None else subs)
        if isinstance(p, PSym):
            return PSym(p.p, ladd(p.l, l), p.subs if subs is None else subs)
        if p is NULL:
            return NULL if l == (0, ()) else Const('NULL+')
        return p

    def deref(self, st, v, ins, what='access'):
        """-> Ptr; null obligations"""
        v = self.resolve(st, v)
        if isinstance(v, PSym):
            self.report('null', False, ins, st, lambda: '%s through pointer "%s" that may be NULL' % (what, self.psyms[v.p].name))
            self.set_nonnull(st, v.p)
            v = self.resolve(st, v)
        if v is NULL or (isinstance(v, Const) and v is not UNDEF):
            self.report('null', False, ins, st, '%s through NULL' % what)
            raise Dead()
        if v is UNDEF:
            self.report('undef', False, ins, st, '%s through an indeterminate pointer' % what)
            raise Dead()
        if isinstance(v, Fn):
            raise Dead()
        self.report('null', True, ins, st)
        o = st.canon(v.o)
        if o != v.o:
            v = Ptr(o, v.l, v.subs)
        if o in st.freed:
            self.report('uaf', False, ins, st, lambda: '%s to %s after it was released' % (what, self.objs[o].name))
        else:
            self.report('uaf', True, ins, st)
        return v

    def check_bounds(self, st, p, size, ins, what, sizel=None):
        """size: byte count (int) or sizel: Lin"""
        sz = sizel if sizel is not None else lc(size)
        o = self.objs[p.o]
        ok = True
        msg = ''
        if o.size is not None:
            if not st.prove(p.l):
                ok = False
                msg = '%s before the start of %s' % (what, o.name)
            elif not st.prove(lsub(lsub(o.size, p.l), sz)):
                ok = False
                msg = '%s beyond the end of %s' % (what, o.name)
        if ok:
            for start, ln in p.subs:
                rel = lsub(p.l, start)
                if not st.prove(rel) or not st.prove(lsub(lsub(lc(ln), rel), sz)):
                    ok = False
                    msg = '%s outside the %d-byte array inside %s' % (what, ln, o.name)
                    break
        if o.size is not None or p.subs:
            self.report('bounds', ok, ins, st, lambda: msg + self.explain(st, p, sz, o))
        return ok

    def explain(self, st, p, sz, o):
        def nm(l):
            return '%d%s' % (l[0], ''.join(' %+d*%s%s' % (c, self.S.t[s].name, list(st.d(s))[:1]) for s, c in l[1]))
        return ' [offset %s; length %s; object size %s]' % (nm(p.l), nm(sz), nm(o.size) if o.size is not None else '-')

    # ------------------------------------------------------------ typed leaves
    def leaf(self, ty, off):
        """(leaf offset, leaf type) containing byte off; None in padding"""
        m = self.m
        base = 0
        while True:
            k = ty[0]
            if k in ('i', 'p', 'f'):
                return base, ty
            if k == 'a':
                es = m.sizeof(ty[2])
                i = (off - base) // es
                base += i * es
                ty = ty[2]
            elif k in ('s', 't'):
                el = m.struct_elems(ty)
                offs = m.layout(ty)[2]
                for e, o in zip(reversed(el), reversed(offs)):
                    if base + o <= off:
                        if off < base + o + max(1, m.sizeof(e)):
                            base += o
                            ty = e
                            break
                        return None
                else:
                    return None
            else:
                return None

    def leaves(self, ty, lo, hi):
        out = []
        o = lo
        while o < hi:
            lf = self.leaf(ty, o)
            if lf is None:
                o += 1
                continue
            out.append(lf)
            o = lf[0] + self.m.sizeof(lf[1])
        return out

    def initial(self, st, o, off, size, ty):
        """initial content of an object at [off, off+size)"""
        k = o.init
        if k == 'undef':
            return UNDEF
        if k == 'opaque':
            return self.unk(st, ty, o.name + '[]')
        if k == 'zero':
            return NULL if ty[0] == 'p' else Int(ty[1], lc(0)) if ty[0] == 'i' else FLT
        if k == 'const':
            return self.const_at(o.g.ty, o.g.init, off, size, ty)
        # lazy
        key = ('init', o.id, off, size, ty[0])
        r = self.memo.get(key)
        if r is not None:
            return r
        if o.initval:
            r = o.initval(self, st, o, off, ty)
            if r is not None:
                self.memo[key] = r
                return r
        nm = o.name + '.' + (self.m.member_at(o.sname, off) if o.sname else str(off))
        if o.ty is not None:
            lf = self.leaf(o.ty, off) if off < self.m.sizeof(o.ty) else None
            if lf is not None and (lf[0] != off or self.m.sizeof(lf[1]) != size) and ty[0] == 'i':
                return self.assemble(st, o, off, size, ty)
        if ty[0] == 'i':
            r = Int(ty[1], ls(self.S.fresh(ty[1], nm)))
        elif ty[0] == 'p':
            r = PSym(self.newpsym(nm, True, None))
        else:
            r = FLT
        self.memo[key] = r
        return r

    def assemble(self, st, o, off, size, ty):
        bits = []
        i = off
        while i < off + size:
            lf = self.leaf(o.ty, i)
            if lf is None:
                s = self.memo.get(('pad', o.id, i))
                if s is None:
                    s = self.memo[('pad', o.id, i)] = self.S.fresh(8, o.name + '.pad')
                bits += [(s, j) for j in range(8)]
                i += 1
                continue
            lo, lt = lf
            n = self.m.sizeof(lt)
            if lt[0] != 'i':
                return self.fresh(ty[1], 'mix')
            v = self.load(st, Ptr(o.id, lc(lo)), lt, None)
            if v is UNDEF:
                return self.fresh(ty[1], 'mix')
            if isinstance(v, Cond):
                v = self.split_cond(st, v)
            b = self.bits(st, Int(n * 8, v.l))
            take = b[(i - lo) * 8:]
            bits += take[:(off + size - i) * 8]
            i = lo + n
        return self.from_bits(st, bits[:ty[1]], ty[1])

    def const_at(self, gty, init, off, size, ty):
        m = self.m
        if init[0] == 'zero':
            return NULL if ty[0] == 'p' else Int(ty[1], lc(0)) if ty[0] == 'i' else FLT
        if init[0] == 'str':
            if ty[0] == 'i':
                b = init[1][off:off + size]
                return Int(ty[1], lc(int.from_bytes(b, 'little')))
        if gty[0] == 'a':
            es = m.sizeof(gty[2])
            i = off // es
            if init[0] == 'agg':
                if i >= len(init[1]):
                    return UNDEF
                return self.const_at(gty[2], init[1][i][1], off - i * es, size, ty)
        if gty[0] in ('s', 't'):
            el = m.struct_elems(gty)
            offs = m.layout(gty)[2]
            for j in range(len(el) - 1, -1, -1):
                if offs[j] <= off:
                    return self.const_at(el[j], init[1][j][1], off - offs[j], size, ty)
        if init[0] == 'undef':
            return UNDEF
        if ty[0] == 'p':
            return self.const_val(init, ty)
        if ty[0] == 'i':
            if init[0] == 'c':
                v = init[1] & ((1 << (m.sizeof(gty) * 8)) - 1)
                return Int(ty[1], lc(v >> (8 * off) & ((1 << ty[1]) - 1)))
            if init[0] == 'null':
                return Int(ty[1], lc(0))
        return UNDEF if ty[0] != 'f' else FLT

    def const_val(self, v, ty):
        k = v[0]
        if k == 'c':
            return Int(ty[1], lc(v[1] if ty[1] > 1 else v[1] & 1))
        if k == 'null':
            return NULL
        if k == 'g':
            if v[1] in self.m.funcs:
                return Fn(v[1])
            return Ptr(self.gobj(v[1]))
        if k == 'undef':
            return UNDEF
        if k == 'gep':
            base = self.const_val(v[2], ir.PTR)
            return self.gep(None, v[1], base, [(t, self.const_val(x, t)) for t, x in v[3]])
        if k == 'flt':
            return FLT
        if k == 'cast' and v[1] in ('bitcast',):
            return self.const_val(v[3], ty)
        if k == 'cast' and v[1] == 'inttoptr':
            return Const('inttoptr')
        if k == 'zero':
            return NULL if ty[0] == 'p' else Int(ty[1], lc(0)) if ty[0] == 'i' else UNDEF
        if k == 'md':
            return UNDEF
        raise ir.IRError('const %r' % (v,))

    def gep(self, st, sty, base, idx):
        m = self.m
        if not isinstance(base, (Ptr, PSym)):
            if base is NULL:
                # offset from NULL (offsetof idiom); stays NULL-like
                return NULL if all(isinstance(v, Int) and v.l == (0, ()) for _, v in idx) else Const('NULL+')
            return base
        subs = base.subs
        t, v = idx[0]
        off = lscale(self.sidx(st, v), m.sizeof(sty))
        if off != (0, ()) and len(idx) == 1:
            return self.padd(base, off)
        cur = sty
        rel = off
        for t, v in idx[1:]:
            if cur[0] in ('s', 't'):
                n = v.l[0]
                rel = laddk(rel, m.layout(cur)[2][n])
                cur = m.struct_elems(cur)[n]
                subs = subs
            elif cur[0] == 'a':
                start = ladd(base.l, rel)
                ln = m.sizeof(cur)
                if cur[1] > 0:
                    subs = subs + ((start, ln),)
                rel = ladd(rel, lscale(self.sidx(st, v), m.sizeof(cur[2])))
                cur = cur[2]
            else:
                raise ir.IRError('gep into %r' % (cur,))
        if len(subs) > 3:
            subs = subs[-3:]
        return self.padd(base, rel, subs)

    def sidx(self, st, v):
        if v is UNDEF:
            return ls(self.S.fresh(64, 'undefidx'))
        if isinstance(v, Cond):
            v = self.split_cond(st, v)
        if isinstance(v, PInt):
            return ls(self.S.fresh(64, 'pidx'))
        if not v.l[1]:
            return lc(sx(v.l[0], v.w))
        return self.norm_s(st, v)

    # ------------------------------------------------------------ loads and stores
    def load(self, st, p, ty, ins):
        o = self.objs[p.o]
        size = self.m.sizeof(ty)
        if o.hook is not None:
            r = o.hook.load(self, st, o, p, ty, ins)
            if r is not NotImplemented:
                return r
        off = st.const(p.l)
        if off is None:
            return self.load_sym(st, o, p, ty, size, ins)
        return self.load_const(st, o, off, ty, size, ins)

    def load_const(self, st, o, off, ty, size, ins):
        os = st.mem.get(o.id)
        if os is not None:
            v = os.c.get((off, size))
            if v is not None:
                if ty[0] == 'p' and isinstance(v, Int):
                    if st.const(v.l) == 0:
                        return NULL
                    return PSym(self.newpsym('int2ptr', True, None))
                if ty[0] == 'i' and not isinstance(v, (Int, Cond)):
                    if v is UNDEF:
                        return UNDEF
                    if v is NULL:
                        return Int(ty[1], lc(0))
                    if isinstance(v, PInt):
                        return v
                    return PInt(v, ty[1]) if ty[1] == 64 else self.fresh(ty[1], 'ptrbits')
                if isinstance(v, Int) and v.w != ty[1]:
                    return Int(ty[1], v.l)
                return v
            # overlap with materialised cells?
            ov = os.c.overlap(off, off + size)
            if ov:
                return self.load_mixed(st, o, off, ty, size, ins)
            for lo, hi, val in reversed(os.fill):
                if lo <= off and off + size <= hi:
                    if val == 'havoc' or isinstance(val, tuple):
                        v = self.unk(st, ty, o.name + '.?')
                        st.wobs(o.id).c[(off, size)] = v
                        return v
                    if val == 'undef':
                        return UNDEF
                    if ty[0] == 'p':
                        return NULL if val == 0 else PSym(self.newpsym('memset', False, None))
                    if ty[0] == 'i':
                        return Int(ty[1], lc(int.from_bytes(bytes([val]) * size, 'little')))
                    return FLT
                if lo < off + size and off < hi:
                    return self.unk(st, ty, 'partialfill')
        v = self.initial(st, o, off, size, ty)
        if v is UNDEF and ins is not None and o.init == 'undef':
            self.report('uninit', False, ins, st, lambda: 'read of indeterminate bytes of %s+%d' % (o.name, off))
            if ty[0] == 'i':
                v = self.fresh(ty[1], 'uninit')
        if o.init == 'lazy' or o.init == 'undef':
            if v is not UNDEF:
                st.wobs(o.id).c[(off, size)] = v
        return v

    def load_mixed(self, st, o, off, ty, size, ins):
        if ty[0] != 'i':
            return self.unk(st, ty, 'mixed')
        os = st.mem[o.id]
        bits = []
        i = off
        while i < off + size:
            k = next(iter(os.c.overlap(i, i + 1)), None)
            if k is None:
                v = self.load_const(st, o, i, ('i', 8), 1, ins)
                if v is UNDEF:
                    v = self.fresh(8, 'undef')
                bits += self.bits(st, v)
                i += 1
                os = st.mem[o.id]
                continue
            v = os.c[k]
            if isinstance(v, Cond):
                v = self.split_cond(st, v)
            if not isinstance(v, Int):
                if v is NULL:
                    b = [0] * 64
                else:
                    return self.fresh(ty[1], 'mixed')
            else:
                b = self.bits(st, Int(k[1] * 8, v.l))
            bits += b[(i - k[0]) * 8:][:(min(k[0] + k[1], off + size) - i) * 8]
            i = k[0] + k[1]
        v = self.from_bits(st, bits[:ty[1]], ty[1])
        # several whole cells read as one integer (a structure passed by value): remember the cells, for when the
        # integer is stored elsewhere
        ov = sorted(os.c.overlap(off, off + size))
        if v.l[1] and size == 8 and len(ov) > 1 and ov[0][0] == off and ov[-1][0] + ov[-1][1] == off + size and \
                all(a[0] + a[1] == b[0] for a, b in zip(ov, ov[1:])) and all(isinstance(os.c[k], Int) for k in ov):
            parts = tuple((k[0] - off, k[1], os.c[k].w, os.c[k].l) for k in ov)
            (y, c), *more = v.l[1]
            df = self.S.t[y].defn
            if not more and c == 1 and not v.l[0] and df is not None and df[0] == 'bits' and len(df) == 2:
                y = self.S.t[y]
                v = Int(v.w, ls(self.S.derived(('bits', df[1], parts), y.w, y.dom, 'cells')))
        return v

    def load_sym(self, st, o, p, ty, size, ins):
        if o.init == 'opaque':
            return self.unk(st, ty, o.name + '[]')
        lo, hi = st.ib(p.l)
        if o.size is not None and not o.size[1]:
            lo = max(lo, 0)
            hi = min(hi, o.size[0] - size)
        for start, ln in p.subs:
            a, b = st.ib(start)
            lo = max(lo, a)
            hi = min(hi, b + ln - size)
        if lo > hi:
            return self.unk(st, ty, 'oob')
        # constant table indexed by one linear expression
        if o.init == 'const' and ty[0] == 'i':
            st_ = self.stride(p.l)
            base = p.l[0]
            if st_:
                idx = ((0, tuple((s, c // st_) for s, c in p.l[1])))
                ilo, ihi = st.ib(idx)
                if ihi - ilo < 4096 and 0 <= ilo * st_ + base and ihi * st_ + base + size <= self.m.sizeof(o.g.ty):
                    tab = []
                    for i in range(0, ihi + 1):
                        x = i * st_ + base
                        tv = self.const_at(o.g.ty, o.g.init, x, size, ty) if x >= 0 else UNDEF
                        tab.append(tv.l[0] & ((1 << ty[1]) - 1) if isinstance(tv, Int) else 0)
                    if ilo >= 0:
                        vals = set(tab[ilo:ihi + 1])
                        s = self.S.derived(('tab', tuple(tab), idx), ty[1], inorm([(v, v) for v in vals]), o.name)
                        return Int(ty[1], ls(s))
        # enumerate few indices
        if len(p.l[1]) == 1:
            (s, c), = p.l[1]
            dm = st.d(s)
            if isize(dm) <= self.split_idx or (o.init == 'const' and isize(dm) <= 300):
                ss = s
                raise Split([(lambda st, v=v: self._setsym(st, ss, v)) for v in ivals(dm)])
        if not p.subs:
            self.concretise(st, p.l)
        return self.unk(st, ty, o.name + '[?]')

    def concretise(self, st, l):
        """split so that l becomes constant, when its variables have few values"""
        if not self.split_len or not l[1] or st.const(l) is not None:
            return
        best = None
        for s, _ in l[1]:
            dm = st.d(s)
            n = isize(dm)
            if 1 < n <= self.split_len and (best is None or n < best[0]):
                best = (n, s, dm)
        if best:
            s = best[1]
            raise Split([(lambda st, v=v: self._setsym(st, s, v)) for v in ivals(best[2])])
        lo, hi = st.ib(l)
        if hi - lo <= self.split_len:
            raise Split([(lambda st, v=v: self._eqlin(st, l, v)) for v in range(lo, hi + 1)])

    def _eqlin(self, st, l, v):
        try:
            st.assume(laddk(l, -v))
            st.assume(laddk(lscale(l, -1), v))
        except Infeasible:
            return []
        return [st]

    def stride(self, l):
        g = 0
        for _, c in l[1]:
            g = gcd(g, abs(c))
        return g

    def _setsym(self, st, s, v):
        try:
            st.set_dom(s, iset(v))
            if st.cons:
                st._recheck(s)
        except Infeasible:
            return []
        return [st]

    def store(self, st, p, v, ty, ins):
        o = self.objs[p.o]
        size = self.m.sizeof(ty)
        if self.on_store:
            self.on_store(st, o, p, v, size, ins)
        if o.hook is not None:
            r = o.hook.store(self, st, o, p, v, ty, ins)
            if r is not NotImplemented:
                return
        off = st.const(p.l)
        if off is None:
            return self.store_sym(st, o, p, v, ty, size, ins)
        if o.init == 'opaque':
            return
        self.store_const(st, o, off, v, size)

    def store_const(self, st, o, off, v, size):
        os = st.wobs(o.id)
        c = os.c
        if size == 8 and isinstance(v, Int) and len(v.l[1]) == 1 and not v.l[0]:
            df = self.S.t[v.l[1][0][0]].defn
            if df is not None and len(df) == 3 and df[0] == 'bits' and v.l[1][0][1] == 1:
                for o2, n, w, l in df[2]:
                    self.store_const(st, o, off + o2, Int(w, l), n)
                return
        if (off, size) not in c:
            for k in c.overlap(off, off + size):
                self.break_cell(st, o, os, k, off, size)
        c[(off, size)] = v

    def break_cell(self, st, o, os, k, off, size):
        """keep the bytes of cell k that lie outside [off, off+size)"""
        v = os.c.pop(k)
        keep = [i for i in range(k[0], k[0] + k[1]) if not off <= i < off + size]
        if not keep:
            return
        if isinstance(v, Int):
            b = self.bits(st, Int(k[1] * 8, v.l))
            for i in keep:
                os.c[(i, 1)] = self.from_bits(st, b[(i - k[0]) * 8:(i - k[0]) * 8 + 8], 8)
        else:
            for i in keep:
                os.c[(i, 1)] = self.fresh(8, 'brk') if v is not UNDEF else UNDEF

    def store_sym(self, st, o, p, v, ty, size, ins):
        if o.init == 'opaque':
            return
        if len(p.l[1]) == 1:
            (s, c), = p.l[1]
            dm = st.d(s)
            if isize(dm) <= self.split_idx:
                raise Split([(lambda st, x=x: self._setsym(st, s, x)) for x in ivals(dm)])
        if not p.subs:
            self.concretise(st, p.l)
        lo, hi = st.ib(p.l)
        for start, ln in p.subs:
            a, b = st.ib(start)
            lo = max(lo, a)
            hi = min(hi, b + ln - size)
        if o.size is not None and not o.size[1]:
            lo = max(lo, 0)
            hi = min(hi, o.size[0] - size)
        self.havoc_range(st, o, lo, hi + size)

    def havoc_range(self, st, o, lo, hi):
        if lo >= hi:
            return
        os = st.wobs(o.id)
        for k in os.c.overlap(lo, hi):
            if k[0] >= lo and k[0] + k[1] <= hi:
                del os.c[k]
            else:
                self.break_cell(st, o, os, k, lo, hi - lo)
        os.fill = tuple(f for f in os.fill if not (lo <= f[0] and f[1] <= hi)) + ((lo, hi, 'havoc'),)

    def fill(self, st, o, lo, hi, val):
        os = st.wobs(o.id)
        for k in os.c.overlap(lo, hi):
            if k[0] >= lo and k[0] + k[1] <= hi:
                del os.c[k]
            else:
                self.break_cell(st, o, os, k, lo, hi - lo)
        os.fill = tuple(f for f in os.fill if not (lo <= f[0] and f[1] <= hi)) + ((lo, hi, val),)

    # ------------------------------------------------------------ instructions
    def val(self, st, v, ty):
        if v[0] == 'l':
            return st.env[v[1]]
        return self.const_val(v, ty)

    def ival(self, st, v, ty):
        x = self.val(st, v, ty)
        return x

    def run(self, fname, args, st, cb=None):
        """interpret fname(args) from st; returns [(state, retval)]"""
        f = self.m.funcs.get(fname)
        if f is None or f.decl:
            raise ir.IRError('anchor: function %s not defined' % fname)
        return self.exec_fn(f, args, st, None)

    def exec_fn(self, f, args, st, ins):
        self.fn_used[f.name] = self.fn_used.get(f.name, 0) + 1
        li = self.li.get(f.name)
        if li is None:
            li = self.li[f.name] = LoopInfo(f)
        env = st.env
        stack = st.stack
        st.env = {}
        for i, ((t, n), a) in enumerate(zip(f.params, args)):
            if i in f.byval and isinstance(a, Ptr):
                a = self.byval(st, f, f.byval[i], n, a)
            if t[0] == 'i' and isinstance(a, Int) and a.w != t[1]:
                a = Int(t[1], a.l)
            st.env[n] = a
        if f.vararg:
            st.env['...'] = tuple(args[len(f.params):])
        st.stack = stack + ((f.name if ins is None else '%s@%d' % (f.name, self.m.loc(ins.loc)[1])),)
        if len(st.stack) > self.maxdepth:
            raise ir.IRError('call depth exceeded: ' + ' > '.join(st.stack[-6:]))
        rets = []
        self.region(f, li, None, [(f.entry, [st])], rets)
        out = []
        for s, v in rets:
            s.env = env if ins is None else dict(env)
            s.stack = stack
            out.append((s, v))
        if self.merge and len(out) > 1:
            out = self.merge_rets(out)
        return out

    def byval(self, st, f, t, n, a):
        """the callee's own copy of a structure passed by value"""
        o = self.newobj('%s:%s' % (f.name, n), 'alloca', lc(self.m.sizeof(t)), t, 'undef')
        so, off, size = self.objs[a.o], st.const(a.l), self.m.sizeof(t)
        if off is None or so.hook is not None:
            o.init = 'opaque'
            return Ptr(o.id)
        from .models import cells_of
        for rel, sz, ty in cells_of(self, st, so, off, size):
            v = self.load_const(st, so, off + rel, ty, sz, None)
            if v is not UNDEF:
                self.store_const(st, o, rel, v, sz)
        return Ptr(o.id)

    def region(self, f, li, region, entry, rets):
        """run the blocks of a region; returns (exits: {block: [states]}, backs: [states])"""
        topo = li.topo[region]
        blocks = li.reach if region is None else li.loops[region]
        pend = {}
        heap = []
        exits = {}
        backs = []
        for b, sts in entry:
            pend[b] = list(sts)
            heapq.heappush(heap, (topo[b], b))

        def push(tgt, st):
            if region is not None and tgt == region:
                backs.append(st)
                return
            if tgt not in blocks:
                exits.setdefault(tgt, []).append(st)
                return
            n = li.node(region, tgt)
            if n != tgt:
                raise ir.IRError('irreducible entry into loop in ' + f.name)
            if tgt not in pend:
                pend[tgt] = []
                heapq.heappush(heap, (topo[tgt], tgt))
            pend[tgt].append(st)

        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            if b in li.loops and b != region:
                if self.merge and len(sts) > 1:
                    sts = self.merge_states(sts, li, b)
                for s, tgt in self.loop(f, li, b, sts, rets):
                    push(tgt, s)
                continue
            if len(sts) > 1:
                sts = self.dedupe(sts)
                if self.merge and (len(sts) >= self.mergecap or self.merge == 'always'):
                    sts = self.merge_states(sts, li, b)
            if len(sts) > self.maxstates:
                raise Budget('too many states at %s/%s' % (f.name, b))
            for st in sts:
                self.block(f, li, b, st, push, rets)
        return exits, backs

    def dedupe(self, sts):
        if len(sts) < 2:
            return sts
        # states that differ in their constraints are not compared any further
        cheap = {}
        pre = []
        for s in sts:
            try:
                k = hash((frozenset(s.kb.items()), frozenset(s.dom.items()), s.cset, s.freed, s.neq, len(s.mem)))
            except TypeError:
                k = None
            pre.append(k)
            cheap[k] = cheap.get(k, 0) + 1
        seen = {}
        out = []
        for c, s in zip(pre, sts):
            if c is not None and cheap[c] == 1:
                out.append(s)
                continue
            k = self.statekey(s)
            if k is None:
                out.append(s)
                continue
            if k not in seen:
                seen[k] = 1
                out.append(s)
        return out

    def statekey(self, s):
        try:
            mem = tuple((o, tuple(sorted(((k, v) for k, v in os.c.items()), key=lambda t: t[0])), os.fill)
                        for o, os in sorted(s.mem.items()))
            env = tuple(sorted(((k, v) for k, v in s.env.items()), key=lambda t: t[0]))
            return (mem, env, tuple(sorted(s.dom.items())), tuple(sorted(s.kb.items())), s.cset, s.trace,
                    tuple(sorted(s.pres.items(), key=lambda t: t[0])), s.freed, tuple(sorted(s.alias.items())),
                    tuple(sorted(s.gh.items(), key=lambda t: str(t[0]))), s.neq)
        except TypeError:
            return None

    def loop(self, f, li, h, sts, rets):
        """-> [(state, exit target)]"""
        out = []
        cur = sts
        it = 0
        undec = 0
        nretpeel = 0
        seen = None
        while True:
            r0 = len(rets)
            ex, backs = self.region(f, li, h, [(h, cur)], rets)
            decided = not (backs and (ex or len(rets) > r0))
            for t, ss in ex.items():
                out.extend((s, t) for s in ss)
            if not backs:
                return out
            backs = self.dedupe(backs)
            it += 1
            if self.loop_unroll_ok(f, h, it, decided, undec):
                if not decided:
                    undec += 1
                # the same state at the loop head twice, with one way to go on each time: the loop is never left
                if not decided or len(backs) != 1:
                    seen = None
                elif it >= 64 and it & (it - 1) == 0:
                    seen = backs[0].clone()
                elif seen is not None and self.same(seen, backs[0]):
                    ins = f.blocks[h].ins[-1]
                    raise Endless(f.name, '%s:%d in %s(): this loop is never left (call path %s)' % (
                        self.m.loc(ins.loc) + (f.name, ' > '.join(backs[0].stack))))
                cur = backs
                continue
            break
        # widening phase from the states reaching the head after the peeled iterations
        self.widen_log += 1
        J = self.join_all(backs, li, h)
        for rnd in range(30):
            r0 = len(rets)
            ex = {}
            backs = []
            e, b = self.region(f, li, h, [(h, [s.clone() for s in J])], rets)
            for t, ss in e.items():
                ex.setdefault(t, []).extend(ss)
            backs.extend(b)
            backs = self.dedupe(backs)
            if all(any(self.leq(x, j, li, h) for j in J) for x in backs):
                for t, ss in ex.items():
                    out.extend((s, t) for s in ss)
                return out
            del rets[r0:]
            J = self.widen(J, backs, li, h, rnd)
        raise Budget('no loop invariant found for %s/%s' % (f.name, h))

    def same(self, a, b):
        """do both states hold the same values everywhere?"""
        if a.env != b.env or a.dom != b.dom or a.kb != b.kb or a.cset != b.cset or a.pres != b.pres or a.neq != b.neq \
                or a.freed != b.freed or a.alias != b.alias or a.mem.keys() != b.mem.keys():
            return False
        return all(os is b.mem[o] or (os.c == b.mem[o].c and os.fill == b.mem[o].fill) for o, os in a.mem.items())

    def loop_unroll_ok(self, f, h, it, decided, undec):
        if decided:
            return it <= self.unroll
        return undec < self.peel

    def block(self, f, li, b, st, push, rets):
        ins = f.blocks[b].ins
        work = [(st, 0)]
        n = len(ins)
        while work:
            s, i = work.pop()
            while i < n:
                x = ins[i]
                op = x.op
                if op == 'phi':
                    i += 1
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget exhausted in ' + f.name)
                try:
                    if op == 'br':
                        if x.a[0] is None:
                            self.edge(f, li, b, x.a[1], s, push)
                        else:
                            c = self.val(s, x.a[0], ('i', 1))
                            if isinstance(c, Int) and not c.l[1]:
                                self.edge(f, li, b, x.a[1] if c.l[0] & 1 else x.a[2], s, push)
                            else:
                                t = self.assume(s, c, True)
                                e = self.assume(s, c, False)
                                for z in t:
                                    self.edge(f, li, b, x.a[1], z, push)
                                for z in e:
                                    self.edge(f, li, b, x.a[2], z, push)
                        break
                    if op == 'ret':
                        rv = None if x.a[0] is None else self.val(s, x.a[0], x.ty)
                        if self.on_ret:
                            self.on_ret(s, f, rv, x)
                        rets.append((s, rv))
                        break
                    if op == 'switch':
                        self.switch(f, li, b, x, s, push)
                        break
                    if op == 'unreachable':
                        break
                    if op == 'call':
                        res = self.call(s, x)
                        if res is None:
                            i += 1
                            continue
                        first = True
                        nxt = None
                        for s2, rv in res:
                            if x.res is not None:
                                s2.env[x.res] = rv
                            if first:
                                nxt = s2
                                first = False
                            else:
                                work.append((s2, i + 1))
                        if nxt is None:
                            break
                        s = nxt
                        i += 1
                        continue
                    self.simple(s, x)
                    i += 1
                except Split as sp:
                    for alt in sp.alts:
                        for z in alt(s.clone()):
                            work.append((z, i))
                    break
                except Infeasible:
                    break
                except Dead:
                    self.failed_paths += 1
                    break

    def edge(self, f, li, b, tgt, st, push):
        phis = f.blocks[tgt].ins
        if phis and phis[0].op == 'phi':
            new = {}
            for p in phis:
                if p.op != 'phi':
                    break
                for v, src in p.a[0]:
                    if src == b:
                        new[p.res] = self.val(st, v, p.ty)
                        break
            st.env.update(new)
        live = li.live[tgt]
        env = st.env
        if len(env) > len(live) + 4:
            ph = li.phis[tgt]
            st.env = {k: v for k, v in env.items() if k in live or k in ph or k == '...'}
        push(tgt, st)

    def switch(self, f, li, b, x, s, push):
        v = self.val(s, x.a[0], x.ty)
        w = x.ty[1]
        if v is UNDEF:
            for t in dict.fromkeys([x.a[1]] + [c[1] for c in x.a[2]]):
                self.edge(f, li, b, t, s.clone(), push)
            return
        u = self.norm_u(s, v, w)
        M = (1 << w) - 1
        k = s.const(u)
        if k is not None:
            for cv, t in x.a[2]:
                if cv & M == k:
                    return self.edge(f, li, b, t, s, push)
            return self.edge(f, li, b, x.a[1], s, push)
        sy = self.as_sym(s, u, w)
        bytgt = {}
        allv = []
        for cv, t in x.a[2]:
            bytgt.setdefault(t, []).append(cv & M)
            allv.append((cv & M, cv & M))
        for t, vs in bytgt.items():
            groups = [vs] if self.switch_group else [[z] for z in vs]
            for g in groups:
                z = s.clone()
                try:
                    z.set_dom(sy, inorm([(c, c) for c in g]))
                    if z.cons:
                        z._recheck(sy)
                except Infeasible:
                    continue
                self.edge(f, li, b, t, z, push)
        z = s.clone()
        try:
            z.set_dom(sy, icompl(inorm(allv), 0, M))
            if z.cons:
                z._recheck(sy)
        except Infeasible:
            return
        self.edge(f, li, b, x.a[1], z, push)

    switch_group = False

    def simple(self, st, x):
        op = x.op
        if op == 'load':
            p = self.deref(st, self.val(st, x.a[0], ir.PTR), x, 'read')
            self.check_bounds(st, p, self.m.sizeof(x.ty), x, 'read')
            if self.on_load:
                self.on_load(st, self.objs[p.o], p, x)
            if x.ty[0] in AGG:
                st.env[x.res] = self.load_agg(st, p, x.ty, x)
            else:
                st.env[x.res] = self.load(st, p, x.ty, x)
        elif op == 'store':
            v = self.val(st, x.a[0], x.ty)
            if isinstance(v, Cond):
                v = self.split_cond(st, v)
            p = self.deref(st, self.val(st, x.a[1], ir.PTR), x, 'write')
            self.check_bounds(st, p, self.m.sizeof(x.ty), x, 'write')
            if x.ty[0] in AGG:
                self.store_agg(st, p, v, x.ty, x)
            else:
                self.store(st, p, v, x.ty, x)
        elif op == 'getelementptr':
            base = self.val(st, x.a[1], ir.PTR)
            st.env[x.res] = self.gep(st, x.a[0], base, [(t, self.val(st, v, t)) for t, v in x.a[2]])
        elif op in ir.BIN:
            if x.ty[0] != 'i':
                st.env[x.res] = FLT
                return
            st.env[x.res] = self.binop(st, op, x.ty[1], self.val(st, x.a[0], x.ty), self.val(st, x.a[1], x.ty))
        elif op == 'icmp':
            st.env[x.res] = self.icmp(st, x.a[0], x.a[1], self.val(st, x.a[2], x.a[1]), self.val(st, x.a[3], x.a[1]))
        elif op in ir.CAST:
            st.env[x.res] = self.cast(st, op, x.a[0], self.val(st, x.a[1], x.a[0]), x.ty)
        elif op == 'alloca':
            t, cnt = x.a
            size = lc(self.m.sizeof(t))
            ty = t
            init = 'undef'
            if cnt is not None:
                n = self.val(st, cnt[1], cnt[0])
                if isinstance(n, Cond):
                    n = self.split_cond(st, n)
                n = self.norm_u(st, n)
                self.concretise(st, n)
                k = st.const(n)
                if k is not None:
                    ty = ('a', k, t)
                    size = lc(self.m.sizeof(t) * k)
                else:
                    size = lscale(n, self.m.sizeof(t))
                    init = 'opaque'
                    ty = None
                    self.report('vla', self.vla_ok(st, n, t), x, st,
                                lambda: 'stack array of %s elements has no static bound' % (show(n)))
            o = self.newobj('%s:%s' % (x.fn.name, x.res), 'alloca', size, ty, init)
            o.loc = x
            if self.heap_hook and cnt is not None:
                self.heap_hook(self, st, o, size, x)
            st.env[x.res] = Ptr(o.id)
        elif op == 'select':
            c = self.val(st, x.a[0], ('i', 1))
            if isinstance(c, Cond):
                c = self.split_cond(st, c)
            if c is UNDEF:
                st.env[x.res] = self.unk(st, x.ty, 'undefsel')
            else:
                k = st.const(c.l)
                if k is None:
                    k = 1 - self.split_cond(st, Cond('z', c.l)).l[0]
                st.env[x.res] = self.val(st, x.a[1] if k & 1 else x.a[2], x.ty)
        elif op == 'freeze':
            st.env[x.res] = self.val(st, x.a[1], x.a[0])
        elif op in ('fcmp',):
            st.env[x.res] = Cond('opq', self.S.fresh(1, 'fcmp'))
        elif op == 'fneg':
            st.env[x.res] = FLT
        elif op == 'extractvalue':
            v, t = self.val(st, x.a[1], x.a[0]), x.a[0]
            for k in x.a[2]:
                v, t = self.agg(v, t).v[k], self.member(t, k)[0]
            st.env[x.res] = v
        elif op == 'insertvalue':
            st.env[x.res] = self.insert(self.val(st, x.a[1], x.a[0]), x.a[0], x.a[4], self.val(st, x.a[3], x.a[2]))
        elif op == 'va_arg':
            st.env[x.res] = self.unk(st, x.ty if x.ty[0] in 'ipf' else ('p',), op)
        else:
            raise ir.IRError('unhandled ' + op)

    def members(self, t):
        """-> [(type, offset)] of a structure or array type"""
        if t[0] == 'a':
            n = self.m.sizeof(t[2])
            return [(t[2], i * n) for i in range(t[1])]
        return list(zip(self.m.struct_elems(t), self.m.layout(t)[2]))

    def member(self, t, k):
        return self.members(t)[k]

    def agg(self, v, t):
        if isinstance(v, Agg):
            return v
        return Agg([UNDEF if v is UNDEF else self.const_val(('zero',), e) for e, _ in self.members(t)])

    def insert(self, v, t, idx, new):
        if not idx:
            return new
        v = list(self.agg(v, t).v)
        v[idx[0]] = self.insert(v[idx[0]], self.member(t, idx[0])[0], idx[1:], new)
        return Agg(v)

    def load_agg(self, st, p, t, ins):
        return Agg([(self.load_agg if e[0] in AGG else self.load)(st, self.padd(p, lc(off)), e, ins)
                    for e, off in self.members(t)])

    def store_agg(self, st, p, v, t, ins):
        for (e, off), m in zip(self.members(t), self.agg(v, t).v):
            if isinstance(m, Cond):
                m = self.split_cond(st, m)
            if e[0] in AGG:
                self.store_agg(st, self.padd(p, lc(off)), m, e, ins)
            else:
                self.store(st, self.padd(p, lc(off)), m, e, ins)

    vla_limit = 4096

    def vla_ok(self, st, n, t):
        return st.ib(n)[1] <= self.vla_limit or st.prove(lsub(lc(self.vla_limit), n))

    def cast(self, st, op, fty, v, ty):
        if op == 'ptrtoint':
            if v is NULL:
                return Int(ty[1], lc(0))
            return PInt(v, ty[1])
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, Int) and st.const(v.l) == 0:
                return NULL
            return PSym(self.newpsym('inttoptr', True, None))
        if op == 'bitcast':
            return v
        if op in ('zext', 'sext', 'trunc'):
            if v is UNDEF:
                return self.fresh(ty[1], 'undef', 0, (1 << fty[1]) - 1 if op == 'zext' else None)
            if isinstance(v, PInt):
                return v if op != 'trunc' else self.fresh(ty[1], 'ptrbits')
            if isinstance(v, Cond):
                k = self.decide(st, v)
                if k is None:
                    v = self.split_cond(st, v)
                v = TRUE if k else FALSE
            if op == 'zext':
                return Int(ty[1], self.norm_u(st, v, fty[1]))
            if op == 'sext':
                return Int(ty[1], self.norm_s(st, v, fty[1]))
            r = Int(ty[1], v.l)
            if not v.l[1]:
                return Int(ty[1], lc(v.l[0] & ((1 << ty[1]) - 1)))
            M = 1 << ty[1]
            lo, hi = st.ib(v.l)
            if -M < lo and hi < 2 * M:
                if ty[1] == 1:
                    return Cond('z', self.norm_u(st, r)).inv() if lo >= 0 and hi <= 1 else self._trunc1(st, v)
                return r
            b = self.bits(st, Int(fty[1], v.l))
            r = self.from_bits(st, b[:ty[1]], ty[1])
            if ty[1] == 1:
                if not r.l[1]:
                    return r
                return Cond('z', r.l).inv()
            return r
        if ty[0] == 'i':
            return self.fresh(ty[1], 'fp')
        return FLT

    def _trunc1(self, st, v):
        b = self.bits(st, v)[0]
        if b in (0, 1):
            return TRUE if b else FALSE
        r = self.from_bits(st, [b], 1)
        return Cond('z', r.l).inv()

    # ------------------------------------------------------------ calls
    def call(self, st, x):
        cal, args = x.a
        if cal[0] == 'g':
            name = cal[1]
        else:
            fv = self.resolve(st, st.env[cal[1]])
            if isinstance(fv, Fn):
                name = fv.name
            else:
                return self.icall(st, x, fv)
        if name.startswith('llvm.'):
            base = name.split('.')[1]
            if base in ('dbg', 'lifetime', 'assume', 'stacksave', 'stackrestore', 'donothing'):
                if x.res is not None:
                    st.env[x.res] = UNDEF
                return None
        vals = []
        for t, v in args:
            if t[0] == 'm':
                vals.append(UNDEF)
                continue
            a = self.val(st, v, t)
            if isinstance(a, Cond):
                a = self.split_cond(st, a)
            vals.append(a)
        self.calls_seen += 1
        self.callee = name
        if self.on_call:
            r = self.on_call(st, name, vals, x)
            if r is not None:
                return r
        h = self.stubs.get(name)
        if h is not None:
            return h(self, st, x, vals)
        f = self.m.funcs.get(name)
        if f is not None and not f.decl:
            pre = [s.split('@')[0] for s in st.stack]
            if pre.count(name) > self.max_rec:
                if self.onrec is not None:
                    return self.onrec(self, st, x, name, vals)
                raise ir.IRError('recursion into ' + name)
            return self.exec_fn(f, vals, st, x)
        h = self.models.get(name) or (self.models.get(name.rsplit('.', 3)[0]) if name.startswith('llvm.') else None)
        if h is None and name.startswith('llvm.'):
            h = self.models.get('.'.join(name.split('.')[:2]))
        if h is not None:
            return h(self, st, x, vals)
        return self.extern(st, x, name, vals)

    def extern(self, st, x, name, vals):
        """undefined function without a model: unknown result, may write through pointer arguments"""
        st.ev(('extern', name, tuple(vals), x))
        for v in vals:
            v = self.resolve(st, v)
            if isinstance(v, Ptr):
                o = self.objs[v.o]
                if not o.ro and o.kind in ('alloca',) and not o.hook:
                    if o.size is not None and not o.size[1]:
                        self.havoc_range(st, o, 0, o.size[0])
        return [(st, self.unk(st, x.ty, name + '()'))]

    def icall(self, st, x, fv):
        if fv is NULL:
            self.report('null', False, x, st, 'call through NULL function pointer')
            return []
        nm = '?'
        if isinstance(fv, PSym):
            nm = self.psyms[fv.p].name
            if self.psyms[fv.p].nullable and fv.p not in st.pres:
                self.report('null', False, x, st, 'call through function pointer %s that may be NULL' % nm)
                self.set_nonnull(st, fv.p)
            else:
                self.report('null', True, x, st)
        elif isinstance(fv, Ptr):
            nm = self.objs[fv.o].name
            self.report('null', True, x, st)
        elif fv is UNDEF:
            self.report('undef', False, x, st, 'call through indeterminate pointer')
            return []
        vals = []
        for t, v in x.a[1]:
            a = self.val(st, v, t)
            if isinstance(a, Cond):
                a = self.split_cond(st, a)
            vals.append(a)
        return self.callback(st, x, nm, vals)

    def callback(self, st, x, name, vals):
        st.ev(('cb', name, tuple(vals), x))
        return [(st, self.unk(st, x.ty, name + '()'))]

    # ------------------------------------------------------------ joins: see join.py
    def join_all(self, sts, li, h):
        from . import join
        return join.join_all(self, sts, li, h)

    def merge_states(self, sts, li, b):
        from . import join
        return join.merge_states(self, sts, li, b)

    def merge_rets(self, out):
        from . import join
        return join.merge_rets(self, out)

    def widen(self, J, backs, li, h, rnd):
        from . import join
        return join.widen(self, J, backs, li, h, rnd)

    def leq(self, x, j, li, h):
        from . import join
        return join.leq(self, x, j, li, h)

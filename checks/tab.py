"""Table-style comparison: abstract end states of the analysed code against a specification."""
from tsa import ir
from tsa.engine import *
from tsa.num import *

GL = ('gl', 'gr', 'glt', 'grt')
GS = ('g0', 'g1', 'g2', 'g3')
ATTR8 = ('fccode', 'bccode', 'fr', 'fg', 'fb', 'br', 'bg', 'bb')
ATTRB = ('bold', 'italic', 'underline', 'inverse', 'protect', 'blink')


def setting_fields(mod, skip=()):
    """all plain data fields of a terminal that are not parser scratch: [(path, off, size, kind)]"""
    scratch = {'state', 'csi_argc', 'csi_argv', 'csi_flags', 'osc_len', 'osc_arg', 'parse_cnt', 'mach', 'con', 'ref'}
    out = []
    for n, d in mod.members('tsm_vte').items():
        top = n.split('.')[0]
        if top in scratch or n in skip or top in skip:
            continue
        t = d['di']['_kind']
        if t == 'DICompositeType' and not n.count('.') and d['size'] > 8:
            if any(x.startswith(n + '.') for x in mod.members('tsm_vte')):
                continue
        if any(x.startswith(n + '.') for x in mod.members('tsm_vte')):
            continue
        if d['bitfield']:
            out.append((n, d['off'], 1, 'bit', d['bit'] - d['off'] * 8))
        elif d['di'].get('tag') == 'DW_TAG_pointer_type' or d['size'] == 8 and t == 'DIDerivedType':
            out.append((n, d['off'], 8, 'ptr', 0))
        else:
            out.append((n, d['off'], d['size'], 'int', 0))
    return out


class Tab:
    def __init__(self, v, c):
        self.v = v
        self.e = v.e
        self.c = c
        self.fields = setting_fields(v.m)
        self.fidx = {f[0]: f for f in self.fields}

    # ---- values
    def eq(self, st, a, b):
        """is value a (Int) provably equal to b (Int, int or linear form) modulo 2^width"""
        if not isinstance(a, Int):
            return False
        if isinstance(b, bool):
            b = int(b)
        if isinstance(b, int):
            b = lc(b)
        elif isinstance(b, Int):
            b = b.l
        d = lsub(a.l, b)
        M = 1 << a.w
        k = st.const(d)
        if k is not None:
            return k % M == 0
        if st.prove(d) and st.prove(lscale(d, -1)):
            return True
        if not d[1]:
            return False
        # last resort: agree on a common normal form
        try:
            x = self.e.norm_u(st, a)
            y = self.e.norm_u(st, Int(a.w, b))
        except Split:
            return False
        d = lsub(x, y)
        return st.prove(d) and st.prove(lscale(d, -1))

    def load(self, st, f):
        n, off, size, kind, bit = f
        return self.e.load(st, Ptr(self.v.o.id, lc(off)), ('p',) if kind == 'ptr' else ('i', size * 8), None)

    def field(self, st, name):
        f = self.fidx[name]
        x = self.load(st, f)
        if f[3] == 'ptr':
            return self.e.resolve(st, x)
        if f[3] == 'bit':
            b = self.e.bits(st, x)
            return b[f[4]]
        return x

    def initial(self):
        """values of all setting fields in the initial state"""
        return {f[0]: self.load(self.v.st.clone(), f) for f in self.fields}

    def same(self, st, a, b):
        """provable equality of two loaded values"""
        if isinstance(a, Int) and isinstance(b, Int):
            if a == b or self.eq(st, a, b):
                return True
            if a.w == 8:
                return self.e.bits(st, a) == self.e.bits(st, b)
            return False
        a = self.e.resolve(st, a)
        b = self.e.resolve(st, b)
        return a == b

    def split(self, st, val, sets, signed=True):
        """partition st by the interval lists in `sets` (last may be None = otherwise); yields (state, index)"""
        e = self.e
        sts = [st]
        l = None
        try:
            l = (e.norm_s if signed else e.norm_u)(st, val)
        except Split as sp:
            out = []
            for alt in sp.alts:
                for s in alt(st.clone()):
                    out += list(self.split(s, val, sets, signed))
            return out
        cuts = []
        lo, hi = -(1 << 64), 1 << 64
        given = []
        for i, rs in enumerate(sets):
            if rs is None:
                continue
            for a, b in rs:
                given.append((a, b, i))
        given.sort()
        pos = lo
        other = sets.index(None) if None in sets else None
        for a, b, i in given:
            if a > pos and other is not None:
                cuts.append((pos, a - 1, other))
            cuts.append((a, b, i))
            pos = b + 1
        if other is not None:
            cuts.append((pos, hi, other))
        out = []
        lo, hi = st.ib(l)
        dm = None
        if len(l[1]) == 1 and l[1][0][1] == 1:
            dm = [(a + l[0], b + l[0]) for a, b in st.d(l[1][0][0])]
        for a, b, i in cuts:
            if b < lo or a > hi:
                continue
            if dm is not None:
                if not any(x <= b and a <= y for x, y in dm):
                    continue
            try:
                s = st.clone()
                s.assume(laddk(l, -a))
                s.assume(laddk(lscale(l, -1), b))
            except Infeasible:
                continue
            out.append((s, i))
        return out

    def bit_split(self, st, val, mask):
        """partition by the truth of (val & mask) != 0 for a single-bit mask"""
        e = self.e
        if val.l[0] == 0 and len(val.l[1]) == 1 and val.l[1][0][1] == 1:
            b = st.bit(val.l[1][0][0], mask.bit_length() - 1)
            if b in (0, 1):
                return [(st, b == 1)]
            out = []
            for t in (True, False):
                s = st.clone()
                try:
                    s.set_bit(b[0], b[1], int(t))
                except Infeasible:
                    continue
                out.append((s, t))
            return out
        x = e.binop(st, 'and', val.w, val, Int(val.w, lc(mask)))
        c = e.icmp(st, 'ne', ('i', val.w), x, Int(val.w, lc(0)))
        out = []
        for t in (True, False):
            for s in e.assume(st, c, t):
                out.append((s, t))
        return out

    # ---- events
    def acts(self, st):
        """externally visible events: [(kind, name, values, data)]"""
        out = []
        for x in st.events():
            if x[0] == 'api':
                out.append(('api', x[1], x[2], x[4]))
            elif x[0] == 'cb':
                out.append(('cb', x[1], x[2], x[4]))
        return out

    def name(self, st, a):
        """readable form of an event"""
        def sv(v):
            if isinstance(v, Int):
                k = st.const(v.l)
                if k is not None:
                    return str(k)
                return '%s' % self.e.explain_lin(st, v.l) if hasattr(self.e, 'explain_lin') else '<expr>'
            return repr(v)
        if a[0] == 'cb' and a[1] in ('write_cb', 'osc_cb') and isinstance(a[3], tuple):
            if a[3] and a[3][0] == 'fmt':
                return '%s(%r)' % (a[1], a[3][1])
            return '%s(%r)' % (a[1], ''.join(chr(x) if isinstance(x, int) and 32 <= x < 127 else
                                             ('\\x%02x' % x if isinstance(x, int) else '?') for x in a[3]))
        return '%s(%s)' % (a[1], ', '.join(sv(v) for v in a[2]))

    def names(self, st):
        return '; '.join(self.name(st, a) for a in self.acts(st)) or 'nothing'

    def match(self, st, want):
        """do the events equal `want`: [(name, [args])] for screen calls, ('write', bytes) for write_cb"""
        acts = self.acts(st)
        if len(acts) != len(want):
            return False
        for a, w in zip(acts, want):
            if w[0] == 'write':
                if a[0] != 'cb' or a[1] != 'write_cb' or a[3] != tuple(w[1]):
                    return False
                if not self.eq(st, a[2][2], len(w[1])):
                    return False
                continue
            if callable(w[0]):
                if not w[0](st, a):
                    return False
                continue
            if a[0] != 'api' or a[1] != w[0]:
                return False
            if len(w) > 1 and w[1] is not None:
                if len(a[2]) != len(w[1]):
                    return False
                for x, y in zip(a[2], w[1]):
                    if y is ANYV:
                        continue
                    if not self.eq(st, x, y):
                        return False
        return True


ANYV = object()

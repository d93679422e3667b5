"""Drawing: what tsm_screen_draw() hands to the callback, cell by cell."""
import itertools

from .ops import *

NAMED = ('bold', 'italic', 'underline', 'inverse', 'blink', 'protect')


class Only:
    """a recorder that keeps the obligations of some kinds only"""

    def __init__(self, r, kinds):
        self.r, self.kinds = r, kinds
        self.engine, self.count = r.engine, r.count

    def ob(self, kind, ok=True, *a):
        if self.kinds is None or kind in self.kinds or kind == 'returns':
            return self.r.ob(kind, ok, *a)
        return ok


class DrawCase:
    """one draw of one shape; `focus` = (row of the view, column) is the cell with arbitrary content, `mode` what is arbitrary about it"""

    def __init__(self, r, shape, mode, focus, flags, clauses):
        self.rec, self.shape, self.mode, self.focus, self.flags, self.clauses = r, dict(shape), mode, focus, flags, clauses
        self.r = Only(r, clauses)
        self.mod = load.module('lib')

    def go(self):
        s = self.s = Scr(self.mod, flags=self.flags, **self.shape)
        s.start(self.r)
        e, st = s.e, s.st
        # the view: rows in drawing order
        view, k = [], 0
        if self.shape.get('sbpos') is not None:
            view = [(l, None) for l in s.sb[self.shape['sbpos']:]][:s.H]
        tab = (s.altl if s.alt else s.main)[1]
        while len(view) < s.H:
            view.append((tab[k], k))
            k += 1
        self.view = view
        fy, fx = self.focus
        fl = view[fy][0]
        ao = [o for n, o, w in s.leaves if n == s.attr_leaves[0][0]][0]
        n = 0
        self.conc = {}
        for l in s.main[1] + s.altl[1] + s.sb:
            o = e.objs[s.cells[l.id].id]
            size = s.size_of(st, o.id) // s.csize
            for x in range(size):
                n += 1
                here = l is fl and x == fx
                if not (here and self.mode == 'attr'):
                    b = x * s.csize
                    for nm, off, w in s.leaves:
                        v = 0x100 + n if nm == 'ch' else 1 + n % 2 if nm == 'width' else (n + off) % 200 if off not in s.bits_at else 0
                        e.store_const(st, o, b + off, Int(w * 8, lc(v)), w)
                if not (here and self.mode == 'age'):
                    e.store_const(st, o, x * s.csize + s.age_off, Int(64, lc(5)), 8)
            if not (l is fl and self.mode == 'age'):
                e.store_const(st, l, s.loff['age'], Int(64, lc(3)), 8)
        if self.mode != 'attr' or fx < s.size_of(st, s.cells[fl.id].id) // s.csize:
            for nm, off, b in s.attr_leaves:
                e.store_const(st, s.o, s.off['def_attr'] + off, Int(8, lc(0 if b else 77 + off)), 1)
        d = self.mod.member('tsm_screen', 'age_reset')
        self.ro, self.rb = d['off'], d['bit'] - d['off'] * 8
        if self.mode != 'age':
            s.seti('age', Int(64, lc(4)), 8)
            b = list(e.bits(st, e.load_const(st, s.o, self.ro, ('i', 8), 1, None)))
            b[self.rb] = 0
            e.store_const(st, s.o, self.ro, e.from_bits(st, b, 8), 1)
        e.stubs['tsm_symbol_get'] = self.symget
        orig = e.callback
        e.callback = lambda st, x, nm, vals: self.cb(st, x, nm, vals) if nm == 'draw_cb' else orig(st, x, nm, vals)
        self.mine = {o for o in range(len(e.objs))} if isinstance(e.objs, list) else set(e.objs)
        self.stored = []
        e.on_store = lambda st, o, p, v, size, ins: self.stored.append((o, p, ins)) if o.id in self.mine else None
        self.data = PSym(e.newpsym('data', False))
        # every combination of the named attributes of the cell with arbitrary content is a partition of its own
        dm = self.mod.members('tsm_screen_attr')
        o, byte = s.o, [s.off['def_attr'] + off for nm, off, b in s.attr_leaves if b][0]
        if fx < s.size_of(st, s.cells[fl.id].id) // s.csize:
            o, byte = e.objs[s.cells[fl.id].id], fx * s.csize + [off for nm, off, w in s.leaves if off in s.bits_at][0]
        base = s.st
        fn = [PSym(e.newpsym('draw_cb', False)), self.data]
        w = lambda m: (lambda: 'tsm_screen_draw(): %s [%s]' % (m(), self.where()))
        split = NAMED[:5] if self.mode == 'attr' else ()
        total = 0
        for vals in itertools.product((0, 1), repeat=len(split)):
            s.st = base.clone()
            if split:
                bits = list(e.bits(s.st, e.load_const(s.st, o, byte, ('i', 8), 1, None)))
                for nm, v in zip(split, vals):
                    bits[dm[nm]['bit'] - dm[nm]['off'] * 8] = v
                e.store_const(s.st, o, byte, e.from_bits(s.st, bits, 8), 1)
            self.stored.clear()
            outs = s.run('tsm_screen_draw', fn)
            total += len(outs)
            if not outs:
                self.r.ob('returns', False, 'tsm_screen_draw', w(lambda: 'never returns'))
            self.r.ob('no effect', all(o is s.o and p.l == lc(self.ro) for o, p, i in self.stored), 'tsm_screen_draw',
                      w(lambda: 'writes to %s' % sorted({'%s+%s' % (o.name, p) for o, p, i in self.stored})))
            for st, ret in outs:
                self.judge(st, ret, w)
        self.r.engine(e, ())
        self.r.count('draw cases')
        self.r.count('abstract end states', total)

    def where(self):
        s = self.s
        return 'screen %dx%d, cursor %d,%d, %s, %s%s%s' % (
            s.W, s.H, s.cx, s.cy, 'alternate' if s.alt else 'main', ', '.join('%s=%d' % f for f in self.flags.items()),
            ', %d rows of history shown from %s' % (s.nsb, self.shape.get('sbpos')) if s.nsb else '',
            ', selection %s' % (s.sel,) if s.sel else '')

    def symget(self, e, st, x, a):
        """contract of tsm_symbol_get: some non-empty sequence for the symbol"""
        p = e.resolve(st, a[1])
        q = e.resolve(st, a[2])
        v = e.load_const(st, e.objs[p.o], st.const(p.l), ('i', 32), 4, None)
        o = e.newobj('sequence', 'opaque', None, None, 'opaque')
        n = Int(64, ls(e.S.fresh(64, 'len', 1, 10)))
        if isinstance(q, Ptr):
            e.store_const(st, e.objs[q.o], st.const(q.l), n, 8)
        st.ev(('symget', a[0], v, o.id, n))
        return [(st, Ptr(o.id))]

    def cb(self, st, x, nm, vals):
        e, s = self.s.e, self.s
        p = e.resolve(st, vals[7])
        base = st.const(p.l)
        attr = [e.load_const(st, e.objs[p.o], base + o, ('i', 8), 1, None) for n, o, b in s.attr_leaves]
        st.ev(('draw', tuple(vals), tuple(attr), x))
        n = sum(1 for v in st.events() if v[0] == 'draw')
        if self.mode == 'fail' or self.mode == 'age' and n == 1:
            return [(st, Int(32, lc(1)) if self.mode == 'fail' else e.unk(st, x.ty, 'draw_cb()'))]
        return [(st, Int(32, lc(0)))]

    def selected(self):
        """positions of the view that are selected"""
        s = self.s
        if s.sel is None:
            return set()
        pos = []
        shown = {l.id: i for i, (l, k) in enumerate(self.view)}
        p0 = self.shape.get('sbpos')
        for spec in s.sel:
            if spec == 'top':
                pos.append((-1, 0))
            elif spec[0] == 'sb':
                i = spec[1] - (s.nsb if p0 is None else p0)
                x = spec[3] if len(spec) > 3 else 0
                pos.append((i, x) if i >= 0 else (-1, 0))
            else:
                row = (0 if p0 is None else s.nsb - p0) + spec[1]
                pos.append((row, spec[2] if spec[2:] else 0))
        a, b = min(pos), max(pos)
        return {(y, x) for y in range(s.H) for x in range(s.W) if a <= (y, x) <= b}

    def judge(self, st, ret, w):
        s, r, e, t = self.s, self.r, self.s.e, self.s.t
        key = 'tsm_screen_draw'
        ev = [v for v in st.events() if v[0] == 'draw']
        syms = [v for v in st.events() if v[0] == 'symget']
        want = [(x, y) for y in range(s.H) for x in range(s.W)]
        got = [(st.const(v[1][5].l), st.const(v[1][6].l)) for v in ev]
        if not r.ob('every cell once, in order', got == want, key, w(lambda: 'the callback gets cells %s' % (got[:12],))):
            return
        sel = self.selected()
        cur = None
        hide = self.flags.get('HIDE_CURSOR', 0)
        for i, (l, k) in enumerate(self.view):
            if k == min(s.cy, s.H - 1):
                cur = (i, min(s.cx, s.W - 1))
        byte = [i for i, (n, o, b) in enumerate(s.attr_leaves) if b][0]
        dm = self.mod.members('tsm_screen_attr')
        bit = {n: dm[n]['bit'] - dm[n]['off'] * 8 for n in NAMED}
        st0 = s.st0
        val = lambda b: st.bit(b[0], b[1]) if isinstance(b, tuple) else b
        for (x, y), v in zip(want, ev):
            vals, attr = v[1], v[2]
            l = self.view[y][0]
            size = s.size_of(st0, s.cells[l.id].id) // s.csize
            cell = s.cell(st0, l.id, x) if x < size else s.blank(st0)
            tog = ((y, x) in sel) ^ (cur == (y, x) and not hide) ^ bool(self.flags.get('INVERSE', 0))
            r.ob('object', vals[0] == s.p and vals[9] == self.data, key, w(lambda: 'the callback gets another screen or data'))
            r.ob('width', t.eq(st, vals[4], cell[1]), key, w(lambda: 'width of cell %d,%d' % (x, y)))
            for i, (n, o, b) in enumerate(s.attr_leaves):
                a, c = attr[i], cell[2 + i]
                if i != byte:
                    r.ob('attributes', a == c or t.eq(st, a, c), key, w(lambda: '%s of cell %d,%d is not drawn as stored' % (n, x, y)))
                    continue
                ba, bc = e.bits(st, a), e.bits(st, c)
                for nm in NAMED:
                    p, q = val(ba[bit[nm]]), val(bc[bit[nm]])
                    if nm == 'inverse' and tog:
                        ok = p in (0, 1) and q in (0, 1) and p != q
                    else:
                        ok = p == q
                    r.ob('attributes' if nm != 'inverse' else 'highlight', ok, key, w(lambda: '%s of cell %d,%d is %s, stored is %s%s' % (
                        nm, x, y, p, q, ', to be inverted' if nm == 'inverse' and tog else '')))
            bits = e.bits(st, attr[byte])
            sy = syms[want.index((x, y))] if len(syms) == len(ev) else None
            if not r.ob('symbol', sy is not None and t.eq(st, sy[2], cell[0]) and sy[1] == Ptr(s.symtab.id), key,
                        w(lambda: 'the text of cell %d,%d is looked up for another symbol' % (x, y))):
                continue
            r.ob('symbol', vals[2] == Ptr(sy[3]), key, w(lambda: 'the text of cell %d,%d is not that of its symbol' % (x, y)))
            ul = val(bits[bit['underline']])
            for s2, i in t.split(st, cell[0], [[(0, 0)], [(32, 32)], [(1, 31), (33, UMAX)]], signed=False):
                empty = i == 0 or i == 1 and ul == 0
                u = ul if ul in (0, 1) or i != 1 else None
                ok = u is not None and (t.eq(s2, vals[3], 0) if empty else t.eq(s2, vals[3], sy[4]))
                r.ob('text length', ok, key, w(lambda: 'cell %d,%d gets %s text' % (x, y, 'some' if empty else 'no or partial')))
            # the id: the symbol in the low half, a number for the attributes above it
            ib, cb = e.bits(st, vals[1]), e.bits(st, cell[0])
            kb = [val(b) for b in ib[32:]]
            ok = all(val(a) == val(b) for a, b in zip(ib[:32], cb)) and all(b in (0, 1) for b in kb)
            r.ob('id', ok, key, w(lambda: 'the id of cell %d,%d does not carry its symbol' % (x, y)))
            if ok:
                num = sum(b << i for i, b in enumerate(kb))
                at = tuple(val(bits[bit[nm]]) for nm in ('bold', 'italic', 'underline', 'inverse', 'blink'))
                ids = self.rec.__dict__.setdefault('ids', {})
                if None not in at and all(b in (0, 1) for b in at):
                    old = ids.setdefault(num, at)
                    r.ob('id', old == at, key, w(lambda: 'attributes %s and %s give the same id' % (old, at)))
            self.age(st, l, x, size, vals[8], w, key)
        bit0 = lambda q: e.bits(st, e.load_const(q, s.o, self.ro, ('i', 8), 1, None))
        a, b = bit0(st), bit0(st0)
        rs = val(b[self.rb])
        r.ob('redraw request', val(a[self.rb]) == 0, key, w(lambda: 'a forced redraw stays requested'))
        r.ob('no effect', all(val(p) == val(q) for i, (p, q) in enumerate(zip(a, b)) if i != self.rb), key,
             w(lambda: 'drawing changes more than the redraw request'))
        r.ob('returned age', rs in (0, 1) and t.eq(st, ret, 0 if rs else s.geti(st0, 'age_cnt', 8)), key,
             w(lambda: 'the age returned is %s' % ret))

    def age(self, st, l, x, size, got, w, key):
        s, r, e, t = self.s, self.r, self.s.e, self.s.t
        rs = e.bits(st, e.load_const(s.st0, s.o, self.ro, ('i', 8), 1, None))[self.rb]
        rs = st.bit(rs[0], rs[1]) if isinstance(rs, tuple) else rs
        if rs == 1:
            r.ob('age of cells', t.eq(st, got, 0), key, w(lambda: 'a forced redraw passes an age to cell column %d' % x))
            return
        a = s.cell_age(s.st0, l.id, x) if x < size else s.geti(s.st0, 'age_cnt', 8)
        b = s.lget(s.st0, l.id, 'age')
        c = s.geti(s.st0, 'age', 8)
        ages = [e.norm_u(st, v) for v in (a, b, c)]
        g = e.norm_u(st, got)
        ok = all(st.prove(lsub(g, v)) for v in ages) and any(st.prove(lsub(v, g)) for v in ages)
        r.ob('age of cells', ok, key, w(lambda: 'the age of column %d is not the newest of cell, row and screen' % x))


def cases(thorough=False):
    """[(shape, mode, focus, flags)]"""
    out = []
    fl = [dict(HIDE_CURSOR=h, INVERSE=i) for h in (0, 1) for i in (0, 1)]
    i = 0
    for W, H, alt, sb, pos, extra in ((1, 1, 0, 0, None, 0), (2, 2, 0, 0, None, 1), (2, 2, 1, 0, None, 0), (2, 2, 0, 2, 1, 0),
                                      (2, 2, 0, 3, 0, 0), (3, 3, 0, 2, 1, 0), (2, 3, 1, 1, 0, 0), (2, 2, 0, 2, None, 0)):
        shape = dict(W=W, H=H, alt=alt, sb=sb, extra=extra)
        if pos is not None:
            shape['sbpos'] = pos
        for cx, cy in {(0, 0), (W, H - 1), (W - 1, 0), (0, H - 1)}:
            s = dict(shape, cx=cx, cy=cy)
            for y, x in itertools.product(range(H), range(W)):
                i += 1
                out.append((s, 'age', (y, x), fl[i % 4]))
                if (y, x) in ((0, 0), (H - 1, W - 1), (cy, min(cx, W - 1))):
                    out.append((s, 'attr', (y, x), fl[(i + i // 4) % 4]))
            for f in fl:
                out.append((s, 'fail', (0, 0), f))
        ends = [('y', k, x) for k in range(H + 1) for x in range(W + 2)] + ['top'] + [('sb', k, 'top', x) for k in range(sb) for x in (0, W - 1, W)]
        for a, b in itertools.product(ends, ends):
            i += 1
            if thorough or W * H < 4 or i % 4 == 0:
                out.append((dict(shape, cx=i % (W + 1), cy=i % H, sel=(a, b)), 'fail', (0, 0), fl[i % 4]))
    # history rows narrower and wider than the screen
    for y, x in itertools.product(range(2), range(3)):
        for m in ('age', 'attr', 'fail'):
            out.append((dict(W=3, H=3, sb=2, sbpos=0, sbw=(1, 5), cx=1, cy=0), m, (y, x), fl[x]))
    # beyond one byte
    for k, (W, H, cx, cy, sb, pos, y, x) in enumerate(((300, 1, 270, 0, 0, None, 0, 280), (300, 1, 5, 0, 0, None, 0, 270), (1, 300, 0, 260, 0, None, 290, 0),
                                                       (1, 300, 0, 3, 2, 1, 258, 0), (1, 300, 1, 255, 0, None, 256, 0), (1, 2, 0, 0, 300, 2, 1, 0),
                                                       (1, 2, 0, 0, 300, 290, 1, 0))):
        s = dict(W=W, H=H, cx=cx, cy=cy, sb=sb)
        if pos is not None:
            s['sbpos'] = pos
        out += [(s, m, (y, x), fl[k % 4]) for m in ('age', 'fail')]
        if sb < 300:
            for a, b in (((y, x), (y, x)), ((max(0, y - 20), 0), (y, x)), ((y, x), (0, 0))):
                out.append((dict(s, sel=(('y',) + a, ('y',) + b)), 'fail', (0, 0), fl[k % 4]))
    return out

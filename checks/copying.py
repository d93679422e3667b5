"""Copying a selection: the string tsm_screen_selection_copy() returns."""
import itertools

from .drawing import Only
from .ops import *

HUGE = UMAX
# contents of a row: (symbol, width) per cell; 0 is an empty cell
A, B, C, E, W2, T, M4, SU, CO = ('a', 1), ('b', 1), ('c', 1), (0, 1), (0x3042, 2), (0, 0), (0x10fffd, 1), (0xd800, 1), (0x80000003, 1)
PATTERNS = ((A, B, C), (A, B, E), (A, E, E), (E, E, E), (E, B, E), (W2, T, C), (A, W2, T), (M4, M4, M4), (T, B, C), (SU, CO, A), (C, E, A))


def enc(v):
    """UTF-8 of a scalar value, nothing for what cannot be encoded"""
    if v > 0x10ffff or 0xd800 <= v < 0xe000 or 0xfdd0 <= v <= 0xfdef or v & 0xfffe == 0xfffe:
        return ()
    return tuple(chr(v).encode())


class CopyCase:
    def __init__(self, r, shape, rows, focus, clauses=None, oom=False):
        self.rec, self.shape, self.rowpat, self.focus = r, dict(shape), rows, focus
        self.r = Only(r, clauses)
        self.oom = oom
        self.mod = load.module('lib')

    def go(self):
        s = self.s = Scr(self.mod, oom=self.oom, **self.shape)
        s.start(self.r)
        e, st = s.e, s.st
        leaf = {n: (o, w) for n, o, w in s.leaves}
        tab = (s.altl if s.alt else s.main)[1]
        self.order = s.sb + tab[:s.H]
        for i, l in enumerate(s.sb + s.main[1] + s.altl[1]):
            o = e.objs[s.cells[l.id].id]
            pat = PATTERNS[self.rowpat[i % len(self.rowpat)]]
            k = s.size_of(st, o.id) // s.csize
            for x in range(k):
                ch, w = pat[x % 3]
                if self.focus is not None and l is self.order[self.focus[0] % len(self.order)] and x == self.focus[1]:
                    st.set_dom(e.load_const(st, o, x * s.csize + leaf['width'][0], ('i', 32), 4, None).l[1][0][0], ((0, 2),))
                    e.load_const(st, o, x * s.csize + leaf['ch'][0], ('i', 32), 4, None)
                    continue
                e.store_const(st, o, x * s.csize + leaf['ch'][0], Int(32, lc(ord(ch) if isinstance(ch, str) else ch)), 4)
                e.store_const(st, o, x * s.csize + leaf['width'][0], Int(32, lc(w)), 4)
        for f, spec in zip(('sel_start', 'sel_end'), s.sel or ()):
            if spec != 'top' and spec[0] == 'y' and spec[1] < 0:
                s.seti(f + '.y', Int(32, lc(spec[1])))
        # never narrow values the analysis has to find out
        self.out = e.newobj('out', 'arg', lc(8), ('p',), 'lazy')
        e.store_const(st, self.out, 0, NULL, 8)
        mine = set(range(len(e.objs))) if isinstance(e.objs, list) else set(e.objs)
        stored = []
        e.on_store = lambda st, o, p, v, size, ins: stored.append((o, p)) if o.id in mine and o.id != self.out.id and o.kind != 'alloca' \
            else None
        outs = s.run('tsm_screen_selection_copy', [Ptr(self.out.id)])
        w = lambda m: (lambda: 'tsm_screen_selection_copy(): %s [%s]' % (m(), self.where()))
        key = 'tsm_screen_selection_copy'
        self.r.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free', 'vla'))
        self.r.count('copies')
        self.r.count('abstract end states', len(outs))
        if not outs:
            self.r.ob('returns', False, key, w(lambda: 'never returns'))
        self.r.ob('nothing else written', not stored, key, w(lambda: 'writes to %s' % sorted({'%s+%s' % (o.name, p) for o, p in stored})[:4]))
        for st, ret in outs:
            self.judge(st, ret, w, key)

    def where(self):
        s = self.s
        return 'screen %dx%d, %s, %d rows of history, selection %s, row contents %s%s' % (
            s.W, s.H, 'alternate' if s.alt else 'main', s.nsb, s.sel, self.rowpat,
            ', cell %s arbitrary' % (self.focus,) if self.focus else '')

    def judge(self, st, ret, w, key):
        s, r, e, t = self.s, self.r, self.s.e, self.s.t
        p = e.resolve(st, e.load_const(st, self.out, 0, ('p',), 8, None))
        if s.sel is None:
            r.ob('no selection', st.prove(laddk(lscale(e.norm_s(st, ret), -1), -1)) and p == NULL, key, w(lambda: 'no failure without a selection'))
            return
        if st.gh.get('oom'):
            r.ob('failure reported', st.prove(laddk(lscale(e.norm_s(st, ret), -1), -1)) and p == NULL, key,
                 w(lambda: 'a failed allocation is not reported'))
            return
        n = st.const(ret.l) if isinstance(ret, Int) else None
        n = n - (1 << 32) if n is not None and n >> 31 else n
        ok = isinstance(p, Ptr) and p.o not in st.freed and st.const(p.l) == 0 and e.objs[p.o].kind == 'heap'
        if not r.ob('string returned', ok and n is not None and n >= 0, key, w(lambda: 'no string is returned (%s)' % ret)):
            return
        o = e.objs[st.canon(p.o)]
        size = s.size_of(st, o.id)
        if not r.ob('terminated', n < size, key, w(lambda: 'the length %d does not fit into %d bytes' % (n, size))):
            return
        got = [e.load_const(st, o, i, ('i', 8), 1, None) for i in range(n + 1)]
        got = [x if isinstance(x, Int) else None for x in got]
        r.ob('terminated', None not in got and t.eq(st, got[n], 0), key, w(lambda: 'no NUL at the end'))
        z = [i for i, x in enumerate(got[:n]) if x is None or not t.split(st, x, [[(1, 255)]], signed=False)]
        r.ob('length', not z, key, w(lambda: 'the string is shorter than the length %d' % n))
        if z:
            return
        if any(x != 'top' and x[0] == 'y' and x[1] < 0 for x in s.sel):
            # a position above the screen that no history row owns: only the string's form is fixed
            return
        for st2, want in self.expect(st):
            r.ob('text', any(self.match(st2, got[:n], x) for x in want), key, w(lambda: 'the text is %s, expected is %s' % (
                [st2.const(x.l) for x in got[:n]], want[0])))

    def match(self, st, got, want):
        """want: byte values, None for one arbitrary character"""
        k = len(got) - sum(1 for x in want if x is not None)
        if None not in want:
            seq = list(want)
            k = 0
        else:
            i = want.index(None)
            if not 0 <= k <= 4:
                return False
            seq = list(want[:i]) + [None] * k + list(want[i + 1:])
        if len(seq) != len(got):
            return False
        return all(b is None or self.s.t.eq(st, a, b) for a, b in zip(got, seq))

    def expect(self, st):
        """[(state, [accepted texts])]"""
        s, e, t = self.s, self.s.e, self.s.t
        leaf = {n: (o, w) for n, o, w in s.leaves}
        rows = []
        work = [(st, None)]
        foc = None
        if self.focus is not None:
            l = self.order[self.focus[0] % len(self.order)]
            x = self.focus[1]
            if x < s.size_of(s.st0, s.cells[l.id].id) // s.csize:
                foc = (l, x)
                c = s.cell(s.st0, l.id, x)
                work = []
                for s2, i in t.split(st, c[0], [[(0, 0)], [(1, UMAX)]], signed=False):
                    for s3, j in t.split(s2, c[1], [[(0, 0)], [(1, UMAX)]], signed=False):
                        work.append((s3, (i, j)))
        for st2, f in work:
            cells = []
            for l in self.order:
                row = []
                for x in range(s.size_of(s.st0, s.cells[l.id].id) // s.csize):
                    if foc == (l, x):
                        row.append((None if f[0] else 0, f[1]))
                    else:
                        c = s.cell(s.st0, l.id, x)
                        row.append((st2.const(c[0].l), st2.const(c[1].l)))
                cells.append(row)
            yield st2, self.texts(cells)

    def texts(self, cells):
        s = self.s
        pos = []
        n = len(self.order)
        for spec in s.sel:
            if spec == 'top':
                pos.append((-1, 0))
            elif spec[0] == 'sb':
                pos.append((spec[1], spec[3] if len(spec) > 3 else 0))
            else:
                y = spec[1]
                pos.append((s.nsb + y, spec[2]))
        a, b = min(pos), max(pos)
        if a == b and a[0] < 0:
            return [[]]
        a = (0, 0) if a[0] < 0 else a
        b = (n - 1, HUGE) if b[0] >= n else b
        out = [[]]
        for y in range(a[0], b[0] + 1):
            x0 = min(a[1], s.W) if y == a[0] else 0
            x1 = min(b[1], s.W - 1) if y == b[0] else s.W - 1
            row = cells[y]
            last = max([x + 1 for x, (ch, w) in enumerate(row) if ch != 0] or [0])
            txt = []
            for x in range(x0, min(x1 + 1, last)):
                ch, w = row[x]
                if w:
                    txt += [None] if ch is None else enc(ch or 32)
            # a row whose text ends in front of the selection may be left out
            out = [o + txt + [10] for o in out] + (out if x0 > last else [])
        return [o[:-1] for o in out] + [o for o in out if not o]


def cases(thorough=False):
    out = []
    i = 0
    for W, H, sb, sbw, alt in ((1, 1, 0, None, 0), (3, 1, 0, None, 0), (3, 2, 0, None, 1), (3, 2, 2, (1, 5), 0), (2, 2, 3, (2, 3, 6), 0),
                               (3, 3, 1, (3,), 0), (3, 2, 2, (3, 1), 1)):
        ends = ['top'] + [('y', y, x) for y in list(range(H)) for x in sorted({0, 1, W - 1, W, W + 3, HUGE})]
        ends += [('y', y, x) for y in (H, H + 7, -2, (1 << 31) - 1, -(1 << 31)) for x in (0, W)]
        ends += [('sb', k, 'top', x) for k in range(sb) for x in sorted({0, W - 1, W, HUGE})]
        ends += [('sb', 0, 'sb', 1)] if 0 else []
        for a, b in itertools.product(ends, ends):
            i += 1
            pats = tuple((i * 7 + 3 * k + i // 11) % len(PATTERNS) for k in range(sb + 2 * H))
            sh = dict(W=W, H=H, sb=sb, alt=alt, sel=(a, b), extra=i % 2)
            if sbw:
                sh['sbw'] = sbw
            if i % 5 == 0:
                pats = (7,)
            out.append((sh, pats, None))
            if i % 3 == 0 or thorough:
                out.append((sh, pats, (i % (sb + H), (i // 3) % W)))
    out.append((dict(W=2, H=2), (0,), None))
    # columns, rows and lengths beyond one byte
    for a, b in (((0, 0), (0, 299)), ((0, 250), (0, 258)), ((0, 298), (0, 400)), ((0, 0), (0, 255)), ((0, 257), (0, 3))):
        for p in ((7,), (0,), (3,)):
            out.append((dict(W=300, H=1, sel=(('y',) + a, ('y',) + b)), p, None))
    for a, b in (((0, 0), (299, 0)), ((255, 0), (257, 0)), ((256, 0), (290, 0)), ((299, 0), (1, 0))):
        out.append((dict(W=1, H=300, alt=a[0] & 1, sel=(('y',) + a, ('y',) + b)), (0, 1, 3), None))
    for a, b in ((('sb', 0, 'top', 0), ('y', 0, 0)), (('sb', 258, 'top', 0), ('y', 0, 0)), ('top', ('sb', 256, 'top', 0))):
        out.append((dict(W=1, H=1, sb=300, sel=(a, b)), (0, 1), None))
    return out


def fails():
    return [(dict(W=2, H=2, sb=1, sel=(a, b)), (0, 4), None, None, True) for a in ('top', ('y', 0, 0), ('sb', 0, 'top', 1)) for b in ('top', ('y', 1, 1))]

"""Abstract model of a screen object: every field and cell arbitrary, partitioned by shape (size, scroll region, cursor position, active
buffer, number of scrollback rows).  Inside one shape all loops over rows and columns have known bounds, so the analysis is exact;
counts and coordinates passed to an operation are arbitrary 32-bit values."""
from tsa.engine import *
from tsa.vte import VteEngine
from tsa import load
from .tab import Tab

LEAVES = [('ch', 0, 4), ('width', 4, 4)] + [('attr%d' % i, 8 + i, 1) for i in range(8)]
FLAG = ('INSERT_MODE', 'AUTO_WRAP', 'REL_ORIGIN', 'INVERSE', 'HIDE_CURSOR', 'FIXED_POS', 'ALTERNATE')
UMAX = (1 << 32) - 1


def flag(n):
    return load.macro('TSM_SCREEN_' + n)


class Scr:
    def __init__(self, mod, W, H, cx=0, cy=0, mt=0, mb=None, alt=0, sb=0, sbmax=None, sbpos=None, extra=0, more=0, flags=None, tabs=None,
                 sel=None, width=None, oom=False, kinds=None, sbw=None):
        self.sbw = sbw                  # widths of the history rows
        self.m = mod
        e = self.e = VteEngine(mod)
        if kinds is not None:
            e.kinds = kinds
        e.peel = e.unroll = 4000
        e.maxstates = 10 ** 6
        e.max_rec = 4
        e.budget = 10 ** 8
        e.alloc_fail = oom
        e.trace_alloc = True
        e.split_idx = e.split_len = 200
        self.W, self.H, self.cx, self.cy, self.mt, self.mb, self.alt = W, H, cx, cy, mt, H - 1 if mb is None else mb, alt
        self.nsb, self.sbmax = sb, sbmax
        self.selection_top = -1
        self.off = {n: d['off'] for n, d in mod.members('tsm_screen').items()}
        self.loff = {n: d['off'] for n, d in mod.members('line').items()}
        coff = {n: d['off'] for n, d in mod.members('cell').items()}
        self.csize = mod.sizeof(('s', 'struct.cell'))
        ao = coff['attr']
        self.leaves = [('ch', coff['ch'], 4), ('width', coff['width'], 4)]
        self.attr_leaves = []
        seen = set()
        for n, d in mod.members('tsm_screen_attr').items():
            if d['off'] not in seen:
                seen.add(d['off'])
                bits = [x['bit'] - x['off'] * 8 for y, x in mod.members('tsm_screen_attr').items() if x['off'] == d['off'] and x['bitfield']]
                self.attr_leaves.append((n, d['off'], bits))
        for n, o, bits in self.attr_leaves:
            self.leaves.append((n, ao + o, 1))
        self.bits_at = {ao + o: bits for n, o, bits in self.attr_leaves if bits}
        self.age_off = coff['age']
        st = self.st = e.new_state()
        self.o = e.newobj('screen', 'heap', lc(mod.sizeof(('s', 'struct.tsm_screen'))), ('s', 'struct.tsm_screen'), 'lazy', sname='tsm_screen')
        self.p = Ptr(self.o.id)
        self.symtab = e.newobj('symbols', 'opaque', None, None, 'opaque')
        self.rows = {}              # line object id -> (kind, index)
        self.cells = {}             # line object id -> cell object
        self.opt = {'llog', 'llog_data'}
        self.o.initval = self.initval
        n = self.line_num = H + more
        # rows of the visible screen are as wide as the screen or wider
        self.main = self.table('main', n, W + extra)
        self.altl = self.table('alt', n, W + extra)
        self.setp('main_lines', Ptr(self.main[0].id))
        self.setp('alt_lines', Ptr(self.altl[0].id))
        self.setp('lines', Ptr((self.altl if alt else self.main)[0].id))
        self.setp('sym_table', Ptr(self.symtab.id))
        for k, x in (('size_x', W), ('size_y', H), ('cursor_x', cx), ('cursor_y', cy), ('margin_top', self.mt), ('margin_bottom', self.mb),
                     ('line_num', n)):
            self.seti(k, x)
        self.tab = e.newobj('tab_ruler', 'heap', lc(W), ('a', W, ('i', 8)), 'lazy')
        for i in range(W):
            if tabs is None:
                st.set_dom(self.e.load_const(st, self.tab, i, ('i', 8), 1, None).l[1][0][0], ((0, 1),))
            else:
                e.store_const(st, self.tab, i, Int(8, lc(int(tabs[i]))), 1)
        self.setp('tab_ruler', Ptr(self.tab.id))
        # scrollback
        self.sb = [self.line('sb%d' % i, (self.sbw[i % len(self.sbw)] if sbw else W + (1 if i == 1 else 0))) for i in range(sb)]
        for i, l in enumerate(self.sb):
            self.lp(l, 'prev', Ptr(self.sb[i - 1].id) if i else NULL)
            self.lp(l, 'next', Ptr(self.sb[i + 1].id) if i + 1 < sb else NULL)
        last = e.S.fresh(64, 'sb_last_id', sb, 1 << 60)
        self.seti('sb_last_id', Int(64, ls(last)), 8)
        for i, l in enumerate(self.sb):
            e.store_const(st, l, self.loff['sb_id'], Int(64, laddk(ls(last), i + 1 - sb)), 8)
        self.setp('sb_first', Ptr(self.sb[0].id) if sb else NULL)
        self.setp('sb_last', Ptr(self.sb[-1].id) if sb else NULL)
        self.seti('sb_count', sb)
        if sbmax is None:
            self.seti('sb_max', Int(32, ls(e.S.fresh(32, 'sb_max', max(sb, 0)))))
        else:
            self.seti('sb_max', sbmax)
        self.setp('sb_pos', NULL if sbpos is None else Ptr(self.sb[sbpos].id))
        self.seti('sb_pos_num', sb if sbpos is None else sbpos)
        # flags
        b = list(e.bits(st, self.geti(st, 'flags')))
        b[flag('ALTERNATE').bit_length() - 1] = alt
        for i in range(len(b)):
            if not any(flag(n).bit_length() - 1 == i for n in FLAG):
                b[i] = 0
        for n2, x in (flags or {}).items():
            b[flag(n2).bit_length() - 1] = x
        self.o_flags = e.from_bits(st, b, 32)
        self.seti('flags', self.o_flags)
        # age
        self.age = e.S.fresh(64, 'age_cnt', 1, (1 << 63))
        self.seti('age_cnt', Int(64, ls(self.age)), 8)
        self.seti('sel_active', 0 if sel is None else 1, 1)
        for w, spec in zip(('sel_start', 'sel_end'), sel or ()):
            # an end point: ('sb', row of the history), ('y', row of the screen) or 'top'
            self.setp(w + '.line', Ptr(self.sb[spec[1]].id) if spec[0] == 'sb' else NULL)
            y = self.selection_top if spec == 'top' or spec[0] == 'sb' and spec[2:] else spec[1] if spec[0] == 'y' else 0
            self.seti(w + '.y', y)
            if spec[0] == 'y' and spec[2:]:
                self.seti(w + '.x', spec[2])
            if spec[0] == 'sb' and spec[3:]:
                self.seti(w + '.x', spec[3])
        self.sel = sel
        self.wid = width
        e.stubs['tsm_symbol_get_width'] = self.stub_width
        self.st0 = None
        self.t = None

    def initval(self, e, st, o, off, ty):
        n = e.m.member_at('tsm_screen', off)
        if n in ('llog', 'llog_data'):
            return PSym(e.newpsym(n, True)) if n == 'llog' else PSym(e.newpsym(n, True))
        return None

    def stub_width(self, e, st, x, a):
        w = self.wid
        if w is None:
            s = e.memo.get('symwidth')
            if s is None:
                s = e.memo['symwidth'] = e.S.fresh(32, 'width', 0, 2)
            return [(st, Int(32, ls(s)))]
        return [(st, Int(32, lc(w)))]

    # -- building
    def line(self, name, size):
        e = self.e
        l = e.newobj(name, 'heap', lc(self.m.sizeof(('s', 'struct.line'))), ('s', 'struct.line'), 'lazy', sname='line')
        c = e.newobj(name + '.cells', 'heap', lc(size * self.csize), ('a', size, ('s', 'struct.cell')), 'lazy')
        self.rows[l.id] = name
        self.cells[l.id] = c
        self.lp(l, 'cells', Ptr(c.id))
        self.lp(l, 'next', NULL)
        self.lp(l, 'prev', NULL)
        e.store_const(self.st, l, self.loff['size'], Int(32, lc(size)), 4)
        return l

    def table(self, name, n, size):
        t = self.e.newobj(name + '_lines', 'heap', lc(8 * n), ('a', n, ('p',)), 'lazy')
        ls_ = [self.line('%s[%d]' % (name, i), size) for i in range(n)]
        for i, l in enumerate(ls_):
            self.e.store_const(self.st, t, 8 * i, Ptr(l.id), 8)
        return t, ls_

    def lp(self, l, f, v):
        self.e.store_const(self.st, l, self.loff[f], v, 8)

    def setp(self, f, v):
        self.e.store_const(self.st, self.o, self.off[f], v, 8)

    def seti(self, f, v, size=4):
        self.e.store_const(self.st, self.o, self.off[f], v if isinstance(v, Int) else Int(size * 8, lc(v)), size)

    def setb(self, st, f, x):
        d = self.m.member('tsm_screen', f)
        b = list(self.e.bits(st, self.e.load_const(st, self.o, d['off'], ('i', 8), 1, None)))
        b[d['bit'] - d['off'] * 8] = x
        self.e.store_const(st, self.o, d['off'], self.e.from_bits(st, b, 8), 1)

    # -- reading
    def geti(self, st, f, size=4):
        return self.e.load_const(st, self.o, self.off[f], ('i', size * 8), size, None)

    def num(self, st, f, size=4):
        v = self.geti(st, f, size)
        k = st.const(v.l) if isinstance(v, Int) else None
        return None if k is None else k & ((1 << size * 8) - 1)

    def ptr(self, st, f):
        return self.e.resolve(st, self.e.load_const(st, self.o, self.off[f], ('p',), 8, None))

    def lget(self, st, l, f):
        return self.e.load_const(st, self.e.objs[l], self.loff[f], ('i', 32), 4, None) if f == 'size' else \
            self.e.load_const(st, self.e.objs[l], self.loff[f], ('i', 64), 8, None) if f in ('age', 'sb_id') else \
            self.e.resolve(st, self.e.load_const(st, self.e.objs[l], self.loff[f], ('p',), 8, None))

    def size_of(self, st, o):
        """size of an object in bytes"""
        n = self.e.objs[o].size
        k = st.const(n) if n is not None else None
        return -1 if k is None else k

    def reach(self, st, roots):
        """{object: path} of everything reachable through stored pointers"""
        seen = {o: n for o, n in roots}
        todo = list(seen)
        # slots of the row tables past line_num hold nothing
        n = self.num(st, 'line_num')
        tabs = [p.o for p in (self.ptr(st, 'main_lines'), self.ptr(st, 'alt_lines')) if isinstance(p, Ptr)]
        while todo:
            o = todo.pop()
            m = st.mem.get(o)
            if m is None:
                continue
            for (off, sz), v in m.c.items():
                if o in tabs and n is not None and off >= 8 * n:
                    continue
                v = self.e.resolve(st, v) if isinstance(v, PSym) else v
                if isinstance(v, Ptr):
                    k = st.canon(v.o)
                    if k not in seen:
                        seen[k] = '%s+%d' % (seen[o], off)
                        todo.append(k)
        return seen

    def tabl(self, st, which='lines'):
        """line object ids of a row table, None where an entry is not a plain row"""
        p = self.ptr(st, which)
        n = self.num(st, 'line_num')
        if not isinstance(p, Ptr) or n is None:
            return None
        out = []
        off = st.const(p.l)
        for i in range(n):
            q = self.e.resolve(st, self.e.load_const(st, self.e.objs[p.o], off + 8 * i, ('p',), 8, None))
            out.append(q.o if isinstance(q, Ptr) and st.const(q.l) == 0 else None)
        return out

    def cell(self, st, l, x):
        """[value per leaf] of one cell, or None"""
        c = self.lget(st, l, 'cells')
        if not isinstance(c, Ptr):
            return None
        o = self.e.objs[c.o]
        return [self.e.load_const(st, o, x * self.csize + off, ('i', n * 8), n, None) for name, off, n in self.leaves]

    def cell_age(self, st, l, x):
        c = self.lget(st, l, 'cells')
        return self.e.load_const(st, self.e.objs[c.o], x * self.csize + self.age_off, ('i', 64), 8, None)

    def same(self, st, leaf, a, b):
        if a == b:
            return True
        name, off, n = leaf
        if not isinstance(a, Int) or not isinstance(b, Int):
            return False
        if self.t.eq(st, a, b):
            return True
        bits = self.bits_at.get(off)
        if bits:
            x, y = self.e.bits(st, a), self.e.bits(st, b)
            return all(x[i] == y[i] for i in bits)
        return False

    def blank(self, st, attr=None):
        """the leaves of an erased cell"""
        base = self.off[attr or 'def_attr']
        out = [Int(32, lc(0)), Int(32, lc(1))]
        for n, o, bits in self.attr_leaves:
            out.append(self.e.load_const(st, self.o, base + o, ('i', 8), 1, None))
        return out

    # -- running
    def start(self, c):
        class V:
            pass
        v = V()
        v.e, v.m, v.o, v.st = self.e, self.m, self.o, self.st

        class T(Tab):
            def __init__(self, v, c):
                self.v, self.e, self.c = v, v.e, c
        self.t = T(v, c)
        self.init = self.st.clone()
        return self

    def run(self, fn, args):
        """interpret an operation; pointer arguments as values, integers as width-tagged values"""
        F = self.m.funcs.get(fn)
        if F is None or F.decl:
            from tsa import ir
            raise ir.IRError('anchor: function %s not defined' % fn)
        vals = [self.p]
        for (ty, n), a in zip(F.params[1:], args):
            vals.append(Int(ty[1], lc(a)) if isinstance(a, int) else a)
        self.st0 = self.st.clone()
        return self.e.run(fn, vals, self.st)

    def arg(self, name='num', w=32, lo=0, hi=None):
        return Int(w, ls(self.e.S.fresh(w, name, lo, hi)))

    def initial_cell(self, l, x):
        return self.cell(self.st0, l, x)


class Ref:
    """reference model: what each operation is defined to do, on tokens"""

    def __init__(self, s, fl):
        self.W, self.H, self.cx, self.cy, self.mt, self.mb, self.alt = s.W, s.H, s.cx, s.cy, s.mt, s.mb, s.alt
        self.fl = fl                     # flag name -> 0/1
        self.main = [('row', l.id) for l in s.main[1][:s.H]]
        self.altr = [('row', l.id) for l in s.altl[1][:s.H]]
        self.grid = {}                   # replaced rows: token -> list of cells
        self.out = []                    # rows that left the top of the main screen, in order
        self.n = 0
        self.scrolled = False

    @property
    def rows(self):
        return self.altr if self.alt else self.main

    @rows.setter
    def rows(self, v):
        if self.alt:
            self.altr = v
        else:
            self.main = v

    def cells(self, tok):
        if tok not in self.grid:
            self.grid[tok] = [('o', tok[1], x) for x in range(self.W)] if tok[0] == 'row' else [('b',)] * self.W
        return self.grid[tok]

    def new(self):
        self.n += 1
        return ('new', self.n)

    # -- rows
    def up(self, top, bot, n, push):
        rows = list(self.rows)
        n = min(n, bot + 1 - top)
        gone = rows[top:top + n]
        self.rows = rows[:top] + rows[top + n:bot + 1] + [self.new() for i in range(n)] + rows[bot + 1:]
        if push and not self.alt:
            self.out += gone

    def down(self, top, bot, n):
        rows = list(self.rows)
        n = min(n, bot + 1 - top)
        self.rows = rows[:top] + [self.new() for i in range(n)] + rows[top:bot + 1 - n] + rows[bot + 1:]

    def scroll_up(self, n):
        self.up(self.mt, self.mb, n, True)

    def scroll_down(self, n):
        self.down(self.mt, self.mb, n)

    def insert_lines(self, n):
        if n and self.mt <= self.cy <= self.mb:
            self.down(self.cy, self.mb, n)
            self.cx = 0

    def delete_lines(self, n):
        if n and self.mt <= self.cy <= self.mb:
            self.up(self.cy, self.mb, n, False)
            self.cx = 0

    # -- cursor
    def move_up(self, n, scroll):
        if not n:
            return
        top = self.mt if self.cy >= self.mt else 0
        if n > self.cy - top:
            if scroll:
                self.scroll_down(n - (self.cy - top))
            self.cy = top
        else:
            self.cy -= n

    def move_down(self, n, scroll):
        if not n:
            return
        bot = self.mb if self.cy <= self.mb else self.H - 1
        if n > bot - self.cy:
            if scroll:
                self.scroll_up(n - (bot - self.cy))
            self.cy = bot
        else:
            self.cy += n

    def move_left(self, n):
        if n:
            self.cx = max(0, min(self.cx, self.W - 1) - n)

    def move_right(self, n):
        if n:
            self.cx = min(self.W - 1, self.cx + n)

    def move_to(self, x, y):
        if self.fl['REL_ORIGIN']:
            y = min(y + self.mt, self.mb)
        else:
            y = min(y, self.H - 1)
        self.cx, self.cy = min(x, self.W - 1), y

    def line_home(self):
        self.cx = 0

    def line_end(self):
        self.cx = self.W - 1

    def newline(self):
        self.move_down(1, True)
        self.cx = 0

    def tab_right(self, n, tabs):
        x = self.cx
        for i in range(min(n, self.W + 1)):
            x = next((j for j in range(x + 1, self.W) if tabs[j]), self.W - 1)
        if n:
            self.cx = min(x, self.W - 1)

    def tab_left(self, n, tabs):
        x = self.cx
        for i in range(min(n, self.W + 1)):
            x = next((j for j in range(x - 1, 0, -1) if tabs[j]), 0)
        if n:
            self.cx = x

    # -- cells
    def put(self, y, x, tok):
        self.cells(self.rows[y])[x] = tok

    def erase(self, x0, y0, x1, y1, protect):
        for y in range(y0, y1 + 1):
            for x in range(x0 if y == y0 else 0, (x1 if y == y1 else self.W - 1) + 1):
                old = self.cells(self.rows[y])[x]
                if protect and old[0] == 'o':
                    self.put(y, x, ('p', old))
                elif protect:
                    raise AssertionError
                else:
                    self.put(y, x, ('b',))

    @property
    def ex(self):
        return min(self.cx, self.W - 1)

    def write(self, width):
        if not width:
            return
        last = self.mb if self.cy <= self.mb else self.H - 1
        if self.cx >= self.W:
            if self.fl['AUTO_WRAP']:
                self.cx = 0
                self.cy += 1
            else:
                self.cx = self.W - 1
        if self.cy > last:
            self.cy = last
            self.scroll_up(1)
        row = self.cells(self.rows[self.cy])
        x = self.cx
        if self.fl['INSERT_MODE'] and x + width < self.W:
            row[x + width:] = row[x:self.W - width]
        row[x] = ('w', width)
        for i in range(1, width):
            if x + i < self.W:
                row[x + i] = ('t', row[x + i])
        self.cx = x + min(width, self.W - x)

    def insert_chars(self, n):
        if n:
            self.cx = self.ex
            row = self.cells(self.rows[self.cy])
            k = min(n, self.W - self.cx)
            row[self.cx:] = [('b',)] * k + row[self.cx:self.W - k]

    def delete_chars(self, n):
        if n:
            self.cx = self.ex
            row = self.cells(self.rows[self.cy])
            k = min(n, self.W - self.cx)
            row[self.cx:] = row[self.cx + k:] + [('b',)] * k


def classes(s, st, val, n):
    """partition an argument: 0, 1, ..., n, anything above (given as n + 1)"""
    for s2, i in s.t.split(st, val, [[(k, k)] for k in range(n + 1)] + [[(n + 1, UMAX)]], signed=False):
        yield s2, i


def token_ok(s, st, tok, got, attr, ch):
    """does the cell hold what the token says"""
    if got is None:
        return False
    k = tok[0]
    if k == 'o':
        want = s.initial_cell(tok[1], tok[2])
    elif k == 'b':
        want = s.blank(st)
    elif k == 'w':
        want = [ch, Int(32, lc(tok[1]))] + attr
    elif k == 't':
        want = None
        base = tok[1]
        if base[0] == 'o':
            want = s.initial_cell(base[1], base[2])
        elif base[0] == 'b':
            want = s.blank(st)
        else:
            want = [ch, Int(32, lc(0))] + attr
        want = [None, Int(32, lc(0))] + [None] * (len(want) - 2)   # only the width of a covered cell is defined
    elif k == 'p':
        raise AssertionError('split protected cells first')
    for leaf, a, b in zip(s.leaves, got, want):
        if b is not None and not s.same(st, leaf, a, b):
            return False
    return True


def describe(s, tok):
    if tok[0] == 'o':
        return 'the old cell %d of row %s' % (tok[2], s.rows.get(tok[1]))
    return {'b': 'blank', 'w': 'the written character', 't': 'a covered cell', 'p': 'erased unless protected'}[tok[0]]

"""Settings change exactly what they name; queries report what is in force."""
from tsa.vte import Vte
from .screens import *

QUERIES = {'tsm_screen_get_width': 'size_x', 'tsm_screen_get_height': 'size_y', 'tsm_screen_get_cursor_x': 'cursor_x',
           'tsm_screen_get_cursor_y': 'cursor_y', 'tsm_screen_get_flags': 'flags', 'tsm_screen_sb_get_line_count': 'sb_count',
           'tsm_screen_sb_get_line_pos': 'sb_pos_num'}
TERM = {'tsm_vte_get_flags': 'flags', 'tsm_vte_get_mouse_mode': 'mouse_mode', 'tsm_vte_get_mouse_event': 'mouse_event'}
AGES = ('age_cnt', 'age', 'age_reset')
DOING = ('set_margins', 'set_tabstop', 'reset_tabstop', 'reset_all_tabstops', 'set_def_attr', 'set_flags', 'reset_flags', 'set_max_sb',
         'selection_reset', 'selection_start', 'selection_target', 'sb_up', 'sb_down', 'sb_page_up', 'sb_page_down', 'sb_reset', 'clear_sb')


class Setting(Case):
    def generic(self, st, ret):
        s = self.s
        work = [(st, [])]
        for v in (self.uargs if self.op == 'set_margins' else ()):
            work = [(s2, a + [i]) for st1, a in work for s2, i in classes(s, st1, v, s.H + 2)]
        for st1, a in work:
            self.exact(st1, ret, a)

    def exact(self, st, ret, a):
        s, r, op = self.s, self.r, self.op
        r.count('judged partitions')
        w = lambda m: (lambda: '%s(): %s [%s]' % (self.fn, m(), self.where(st, 'arguments %s' % a if a else None)))
        own = set(AGES)
        num = {}
        if op == 'set_margins':
            t, b = max(1, a[0]), a[1]
            num['margin_top'], num['margin_bottom'] = (t - 1, b - 1) if t < b <= s.H else (0, s.H - 1)
            r.ob('result', ret is None or s.t.eq(st, ret, 0), op, w(lambda: 'the result is %s' % (ret,)))
        elif op in ('set_flags', 'reset_flags'):
            b0, b1 = s.e.bits(s.st0, s.o_flags), s.e.bits(st, s.geti(st, 'flags'))
            m = self.shape['mask']
            for i in range(32):
                v = (1 if op == 'set_flags' else 0) if m >> i & 1 else b0[i]
                q = st.bit(*b1[i]) if isinstance(b1[i], tuple) else b1[i]
                p = st.bit(*v) if isinstance(v, tuple) else v
                r.ob('modes', p == q, op, w(lambda: 'mode bit %d is %s, defined is %s' % (i, q, p)))
            own |= {'flags', 'lines', 'def_attr_main'} if m & flag('ALTERNATE') else {'flags'}
        elif op == 'set_max_sb':
            v = s.geti(st, 'sb_max')
            r.ob('limit', s.t.eq(st, v, self.av[0][1]), op, w(lambda: 'the limit becomes %s' % (v,)))
            own |= {'sb_max', 'sb_count', 'sb_first', 'sb_last', 'sb_pos', 'sb_pos_num', 'sel_start', 'sel_end'}
        elif op == 'set_def_attr':
            for (nm, off, bits), v in zip(s.attr_leaves, self.attr):
                g = s.e.load_const(st, s.o, s.off['def_attr'] + off, ('i', 8), 1, None)
                r.ob('attributes', s.same(st, (nm, 8 + off, 1), g, v) or g == v, op, w(lambda: '%s is not taken over' % nm))
            own.add('def_attr')
        elif op.startswith('selection'):
            own |= {'sel_active', 'sel_start', 'sel_end'}
        elif op.startswith('sb_'):
            own |= {'sb_pos', 'sb_pos_num'}
        elif op == 'clear_sb':
            own |= {'sb_count', 'sb_first', 'sb_last', 'sb_pos', 'sb_pos_num', 'sel_start', 'sel_end'}
        own |= set(num)
        for f, v in num.items():
            r.ob('value', s.num(st, f) == v, op + '.' + f, w(lambda: '%s becomes %s, defined is %d' % (f, s.num(st, f), v)))
        # tab stops
        for x in range(s.W):
            g = s.e.load_const(st, s.tab, x, ('i', 8), 1, None)
            old = s.e.load_const(s.st0, s.tab, x, ('i', 8), 1, None)
            at = x == s.cx
            want = 0 if op == 'reset_all_tabstops' else 1 if op == 'set_tabstop' and at else 0 if op == 'reset_tabstop' and at else old
            ok = g == want if not isinstance(want, int) else s.t.eq(st, g, want)
            r.ob('tab stops', ok, op, w(lambda: 'the tab stop of column %d is wrong' % x))
        # everything else in the object
        for n, d in self.mod.members('tsm_screen').items():
            top = n.split('.')[0]
            if top in own or d['bitfield'] and top in AGES:
                continue
            if any(k.startswith(n + '.') for k in self.mod.members('tsm_screen')):
                continue
            if d['type'] is None:
                continue
            ty, size = (('p',), 8) if n in ('llog', 'llog_data') or s_ptr(d) else (('i', d['size'] * 8), d['size'])
            p, q = s.e.load_const(st, s.o, d['off'], ty, size, None), s.e.load_const(s.st0, s.o, d['off'], ty, size, None)
            ok = p == q or (s_ptr(d) and s.e.resolve(st, p) == s.e.resolve(st, q)) or (isinstance(p, Int) and s.t.eq(st, p, q))
            r.ob('nothing else', ok, op + '.' + n, w(lambda: '%s changes' % n))
        for l in s.main[1] + s.altl[1]:
            r.ob('nothing else', self.row_same(st, l.id), op, w(lambda: 'the text of %s changes' % s.rows[l.id]))
        for l in s.sb:
            if op not in ('set_max_sb', 'clear_sb'):
                r.ob('nothing else', l.id not in st.freed, op, w(lambda: '%s is released' % s.rows[l.id]))


def s_ptr(d):
    return d['di'].get('tag') == 'DW_TAG_pointer_type' or d['di'].get('_kind') == 'DIDerivedType' and d['size'] == 8


def queries(c):
    mod = load.module('lib')
    for fn, f in QUERIES.items():
        s = Scr(mod, 2, 2, cx=2, cy=1, sb=2, sbpos=1)
        s.start(c)
        for st, ret in s.run(fn, []):
            c.ob('reported value', s.t.eq(st, ret, s.geti(s.st0, f)), fn, '%s() does not report %s' % (fn, f))
        c.engine(s.e, ())
    for fn, f in TERM.items():
        v = Vte(mod)
        e, st = v.e, v.st
        for st1, ret in e.run(fn, [v.p], st):
            d = mod.members('tsm_vte')[f]
            a = e.load_const(st1, v.o, d['off'], ('i', d['size'] * 8), d['size'], None)
            c.ob('reported value', ret == a or st1.proveq(ret.l, a.l), fn, '%s() does not report %s' % (fn, f))
        c.engine(e, ())
    v = Vte(mod)
    e, d = v.e, mod.members('tsm_vte')['def_attr']
    o = e.newobj('out', 'heap', lc(d['size']), ('s', 'struct.tsm_screen_attr'), 'lazy', sname='tsm_screen_attr')
    offs = sorted({m['off'] for n, m in mod.members('tsm_screen_attr').items()})
    want = [e.load_const(v.st, v.o, d['off'] + k, ('i', 8), 1, None) for k in offs]
    for st, ret in e.run('tsm_vte_get_def_attr', [v.p, Ptr(o.id)], v.st):
        for k, q in zip(offs, want):
            p = e.load_const(st, o, k, ('i', 8), 1, None)
            c.ob('reported value', p == q or e.bits(st, p)[:6] == e.bits(st, q)[:6], 'tsm_vte_get_def_attr',
                 'tsm_vte_get_def_attr() does not report byte %d of the default attributes' % k)
    c.engine(e, ())
    c.cov['queries'] = sorted(list(QUERIES) + list(TERM))


def jobs(th):
    out = []
    sizes = ((1, 1), (2, 3), (3, 2)) + (((4, 5),) if th else ())
    n = 0
    for op in DOING:
        if op in ('set_flags', 'reset_flags'):
            continue
        for W, H in sizes:
            for cx, cy in cursors_of(W, H):
                for alt in (0, 1):
                    n += 1
                    ms = shapes.margins(H)
                    m = ms[n % len(ms)]
                    s = shapes.S(W, H, cx=cx, cy=cy, alt=alt, mt=m[0], mb=m[1], sb=n % 3)
                    if s['sb'] and n % 2:
                        s['sbpos'] = s['sb'] - 1
                    if op.startswith('selection') and n % 2:
                        ss = shapes.selections(s['sb'])
                        s['sel'] = ss[n % len(ss)]
                    out.append((op, s))
    return shapes.vary(out) + shapes.flagops()


def cursors_of(W, H):
    return sorted({(0, 0), (W - 1, H - 1), (W, 0), (0, H - 1)})


def check(Check):
    c = Check('C39', 'other', 'For every call that sets a mode, the scroll region, tab stops, the erase attributes, the history limit, the view '
              'position or the selection the abstract end state is compared with the definition: the named state has the defined value '
              'and every other field, every cell and every tab stop is unchanged; every query returns the field it names. ' + BOUND + '.')
    load.module('lib')
    j = jobs(c.thorough)
    pool(c, j, lambda r, x: Setting(r, x[0], x[1], ()).go())
    queries(c)
    c.cov['operations'] = sorted({OPS[o][0] for o, _ in j})
    c.floor('operation and shape cases', c.cov.get('operation and shape cases', 0), len(j))
    c.assumptions.append('bounded to the listed screen shapes; the calls do not loop over the screen apart from the tab stops and history rows')
    c.sample('%s on %s' % j[len(j) // 2])
    return c.finish()

"""C23: colours always come from the selected palette."""
from tsa import load
from .inputs import *
from .palettes import PALETTES

RULE = ('palette selection is interpreted for every documented name, unknown names and custom palettes from arbitrary earlier settings and the '
        'resulting table compared entry by entry; for every colour code, with and without bold, the colours handed to the screen by '
        'printing, attribute changes, restores and resets are compared with the entry of the palette in use')

FG, BG, NUM = 16, 17, 18
UNKNOWN = ['', 'x', 'Legacy', 'legac', 'legacy2', 'solarize', 'solarized-', 'solarized-blac', 'solarized-white2', 'vg', 'vga ', 'soft', 'soft-blacks',
           'base16', 'base16-dar', 'base16-lights', 'custo', 'customs', 'xterm', 'default']


class ColorEngine(VteEngine):
    def attr_of(self, st, p):
        off = st.const(p.l)
        if off is None:
            return None
        o = self.objs[p.o]
        d = {}
        for n in ('fccode', 'fr', 'fg', 'fb', 'bccode', 'br', 'bg', 'bb'):
            d[n] = self.load_const(st, o, off + self.m.member('tsm_screen_attr', n)['off'], ('i', 8), 1, None)
        m = self.m.member('tsm_screen_attr', 'bold')
        d['bold'] = self.bits(st, self.load_const(st, o, off + m['off'], ('i', 8), 1, None))[m['bit'] - m['off'] * 8]
        return tuple(d.items())


class World:
    """a terminal with arbitrary settings whose palette is a table of arbitrary colours"""

    def __init__(self, mod, palette=True):
        self.v = v = Vte(mod, ColorEngine(mod))
        self.e = e = v.e
        e.peel = e.unroll = 64
        e.maxstates = 10 ** 5
        self.m = mod
        self.st = v.st
        self.pal = None
        if palette:
            self.pal = e.newobj('palette', 'arg', lc(NUM * 3), ('a', NUM, ('a', 3, ('i', 8))), 'lazy')
            v.set(v.st, 'palette', Ptr(self.pal.id), 8)
            default(self, v.st, 'def_attr')

    def entry(self, st, i):
        return [self.e.load_const(st, self.pal, i * 3 + k, ('i', 8), 1, None) for k in range(3)]


def default(w, st, path):
    """attributes at `path` hold the resolved default colours"""
    v = w.v
    for p, i in (('f', FG), ('b', BG)):
        v.set(st, path + '.%sccode' % p, Int(8, lc(i)), 1)
        for ch, x in zip('rgb', w.entry(st, i)):
            v.set(st, path + '.' + p + ch, x, 1)


def expected(code, bold, fore):
    """palette entry shown for a colour code, None for direct colours"""
    if code < 0:
        return None
    if fore and bold and code < 8:
        return code + 8
    return code if code < NUM else FG if fore else BG


def resolved(c, w, t, st, A, what):
    """the colours of an attribute are those of the palette in use"""
    for p, fore in (('f', True), ('b', False)):
        k = st.const(A[p + 'ccode'].l) if isinstance(A[p + 'ccode'], Int) else None
        if not c.ob('colour code known', k is not None, what, '%s: the colour code handed to the screen is not determined' % what):
            continue
        k = (k & 255) - 256 if k & 128 else k & 255
        if fore and 0 <= k < 8 and A['bold'] not in (0, 1):
            c.ob('bold known', False, what, '%s: colours do not depend on bold' % what)
            continue
        i = expected(k, A['bold'], fore)
        if i is None:
            continue
        for ch, x in zip('rgb', w.entry(st, i)):
            c.ob('palette colour', t.eq(st, A[p + ch], x), '%s%s' % (what, p + ch),
                 '%s: component %s of the %s colour is not that of palette entry %d' % (what, ch, 'foreground' if fore else 'background', i))


def attrs(st):
    return [x for x in st.events() if x[0] == 'api' and x[1] in ('tsm_screen_write', 'tsm_screen_set_def_attr')]


def check(Check):
    c = Check('C23', 'proof', RULE)
    mod = load.module('lib')
    n = printing(c, mod)
    c.floor('printing paths', n, 2 * 256)
    n = others(c, mod)
    c.floor('attribute changes', n, 20)
    n = selection(c, mod)
    c.floor('palette selections', n, 60)
    return c.finish()


def chartest(c, mod, state, ch, prep):
    """one character; yields (world, tab, end state)"""
    w = World(mod)
    v, e, st = w.v, w.e, w.st
    t = Tab(v, c)
    v.cut_decoder(ch, ch)
    v.setc(st, 'state', mod.enum('STATE_' + state))
    v.set(st, 'parse_cnt', Int(64, lc(0)), 8)
    pin_flags(v, st, **{'8BIT_MODE': 0, '7BIT_MODE': 0, 'PREPEND_ESCAPE': 0, 'SEND_RECEIVE_MODE': 1})
    prep(w, st)
    for s, r in v.run_char(st):
        yield w, t, s
    c.fns |= set(e.fn_used)
    c.engine(e, ('null', 'bounds', 'uninit', 'undef', 'uaf'), 'safety: ')


def setbits(w, st, path, **kw):
    e, v = w.e, w.v
    d = v.m.member('tsm_screen_attr', 'bold')
    off = v.off(path)
    for n, x in kw.items():
        d = v.m.member('tsm_screen_attr', n)
        b = list(e.bits(st, e.load_const(st, v.o, off + d['off'], ('i', 8), 1, None)))
        b[d['bit'] - d['off'] * 8] = x
        e.store_const(st, v.o, off + d['off'], e.from_bits(st, b, 8), 1)


def printing(c, mod):
    n = 0
    for code in range(-128, 128):
        for bold in (0, 1):
            def prep(w, st):
                w.v.set(st, 'cattr.fccode', Int(8, lc(code & 255)), 1)
                w.v.set(st, 'cattr.bccode', Int(8, lc((code if bold else -code - 1) & 255)), 1)
                setbits(w, st, 'cattr', bold=bold)
            for w, t, s in chartest(c, mod, 'GROUND', 0x78, prep):
                what = 'printing with colour code %d%s' % (code, ', bold' if bold else '')
                ev = [x for x in attrs(s) if x[1] == 'tsm_screen_write']
                c.ob('printed', len(ev) == 1, None, 'a printable character is not written exactly once')
                for x in ev:
                    n += 1
                    A = dict(x[4]) if x[4] else None
                    if not c.ob('attribute passed', A is not None, None, 'printing passes no attributes'):
                        continue
                    for f, k in (('fccode', code), ('bccode', code if bold else -code - 1)):
                        c.ob('code kept', t.eq(s, A[f], k & 255), what + f, what + ': the colour code is changed')
                    c.ob('bold kept', A['bold'] == bold, what, what + ': bold is changed')
                    resolved(c, w, t, s, A, what)
                    direct(c, w, t, s, A, what, {'f': 'cattr', 'b': 'cattr'})
    return n


def direct(c, w, t, st, A, what, frm):
    """direct colours are passed through"""
    for p in 'fb':
        k = st.const(A[p + 'ccode'].l)
        if k is None or not k & 128:
            continue
        for ch in 'rgb':
            x = w.v.get(w.st, frm[p] + '.' + p + ch, 8)
            c.ob('direct colour', t.eq(st, A[p + ch], x), what + p + ch, what + ': component %s of a direct colour is changed' % ch)


def others(c, mod):
    n = 0
    codes = [(1, 2), (7, 0), (9, 15), (16, 17), (17, 16), (255, 255), (20, 100)]

    def judge(what, it):
        k = 0
        for w, t, s in it:
            for x in attrs(s):
                k += 1
                A = dict(x[4]) if x[4] else None
                if c.ob('attribute passed', A is not None, what, what + ' passes no attributes'):
                    resolved(c, w, t, s, A, what)
        return k

    def put(path, fc, bc):
        def prep(w, st):
            w.v.set(st, path + '.fccode', Int(8, lc(fc)), 1)
            w.v.set(st, path + '.bccode', Int(8, lc(bc)), 1)
        return prep
    for fc, bc in codes:
        n += judge('DECRC', chartest(c, mod, 'ESC', ord('8'), lambda w, st: (w.v.setc(st, 'csi_flags', 0), put('saved_state.cattr', fc, bc)(w, st))))
        for args in ([-1], [31], [1], [22], [39], [49], [0], [95, 104], [38, 5, 3], [48, 5, 12]):
            def prep(w, st):
                put('cattr', fc, bc)(w, st)
                pin_flags(w.v, st, BACKGROUND_COLOR_ERASE_MODE=1)
                w.v.setc(st, 'csi_flags', 0)
                w.v.setc(st, 'csi_argc', len(args) - 1)
                for i in range(16):
                    w.v.setc(st, 'csi_argv', args[i] if i < len(args) else -1, 32, i)
            k = judge('CSI m', chartest(c, mod, 'CSI_PARAM', ord('m'), prep))
            c.ob('erase colours follow', k > 0, None, 'attribute changes are not passed on to the screen although background colour erase is on')
            n += k
    n += judge('RIS', chartest(c, mod, 'ESC', ord('c'), lambda w, st: w.v.setc(st, 'csi_flags', 0)))
    for f in ('tsm_vte_reset', 'tsm_vte_hard_reset'):
        w = World(mod)
        t = Tab(w.v, c)
        for s, r in w.e.run(f, [w.v.p], w.st):
            for x in attrs(s):
                n += 1
                if c.ob('attribute passed', x[4] is not None, f, f + ' passes no attributes'):
                    resolved(c, w, t, s, dict(x[4]), f)
            keeps(c, w, t, s, f)
    return n


KEEP = ('def_attr.fccode', 'def_attr.bccode') + tuple('def_attr.%s%s' % (p, k) for p in 'fb' for k in 'rgb')


def keeps(c, w, t, s, what):
    for f in KEEP:
        c.ob('defaults kept', t.eq(s, w.v.get(s, f, 8), w.v.get(w.st.clone(), f, 8)), what + f, '%s changes %s' % (what, f))
    for f in ('palette', 'palette_name', 'custom_palette_storage'):
        a, b = w.v.getp(s, f), w.v.getp(w.st.clone(), f)
        c.ob('palette kept', a == b, what + f, '%s changes %s' % (what, f))


def selection(c, mod):
    n = 0
    names = [(x, x) for x in PALETTES] + [(x, 'legacy') for x in UNKNOWN] + [(None, 'legacy'), ('custom', 'custom'), ('custom', 'legacy')]
    for name, want in names:
        w = World(mod, False)
        v, e, st = w.v, w.e, w.st
        src = storage(w, st) if want == 'custom' else NULL
        v.set(st, 'custom_palette_storage', src, 8)
        arg = NULL if name is None else string(w, st, name)
        n += chosen(c, w, 'tsm_vte_set_palette', [v.p, arg], 'palette %r' % (name,), want, src, name)
    # a custom palette is used at once when it is the selected one, and stored otherwise
    for name, want in (('custom', 'custom'), ('vga', 'vga'), (None, 'legacy'), ('custom', 'legacy')):
        for had in (0, 1):
            w = World(mod, False)
            v, e, st = w.v, w.e, w.st
            v.set(st, 'custom_palette_storage', storage(w, st) if had else NULL, 8)
            v.set(st, 'palette_name', NULL if name is None else string(w, st, name, heap=True), 8)
            if want == 'legacy' and name == 'custom':
                arg = NULL
            else:
                o = e.newobj('new palette', 'arg', lc(NUM * 3), ('a', NUM, ('a', 3, ('i', 8))), 'lazy')
                arg = Ptr(o.id)
            n += chosen(c, w, 'tsm_vte_set_custom_palette', [v.p, arg], 'custom palette while %r is selected' % (name,), want, arg, None)
    # creation
    e = ColorEngine(mod)
    v = Vte(mod, e)
    st = e.new_state()
    out = e.newobj('out', 'arg', lc(8), ('p',), 'lazy')
    con = e.newobj('screen', 'opaque', None, None, 'opaque')
    cb = PSym(e.newpsym('write_cb', False))
    for s, r in e.run('tsm_vte_new', [Ptr(out.id), Ptr(con.id), cb, NULL, NULL, NULL], st):
        if s.const(r.l) != 0:
            continue
        p = e.resolve(s, e.load(s, Ptr(out.id), ('p',), None))
        if not c.ob('created', isinstance(p, Ptr), None, 'a created terminal is not returned'):
            continue
        v.o = e.objs[p.o]
        w2 = type('W', (), {})()
        w2.v, w2.e, w2.m = v, e, mod
        after(c, w2, Tab(v, c), s, 'a new terminal', 'legacy', NULL)
        n += 1
    c.fns |= set(e.fn_used)
    return n


def string(w, st, s, heap=False):
    b = s.encode() + b'\0'
    o = w.e.newobj('name', 'heap' if heap else 'arg', lc(len(b)), ('a', len(b), ('i', 8)), 'lazy')
    for i, x in enumerate(b):
        w.e.store_const(st, o, i, Int(8, lc(x)), 1)
    return Ptr(o.id)


def storage(w, st):
    o = w.e.newobj('custom palette', 'heap', lc(NUM * 3), ('a', NUM, ('a', 3, ('i', 8))), 'lazy')
    return Ptr(o.id)


def chosen(c, w, fn, args, what, want, src, name):
    v, e, st = w.v, w.e, w.st
    t = Tab(v, c)
    n = 0
    for s, r in e.run(fn, args, st):
        if s.gh.get('oom'):
            continue
        n += 1
        c.ob('accepted', s.const(r.l) == 0, what, what + ' is refused')
        after(c, w, t, s, what, want, src)
        ev = attrs(s)
        w2 = w
        c.ob('screen defaults', len(ev) == 1 and ev[0][1] == 'tsm_screen_set_def_attr', what, what + ': the default colours are not passed to the screen')
        w.pal = e.objs[v.getp(s, 'palette').o]
        for x in ev:
            if x[4] is not None:
                for p, i in (('f', FG), ('b', BG)):
                    for ch, y in zip('rgb', entry(w, s, i)):
                        c.ob('screen default colours', t.eq(s, dict(x[4])[p + ch], y), what + p + ch, what + ': the screen gets wrong default colours')
        if name is not None:
            from tsa.models import cstring
            p = v.getp(s, 'palette_name')
            c.ob('name kept', isinstance(p, Ptr) and p.o != args[1].o and cstring(e, s, p) == name.encode(), what, what + ': the name is not remembered')
    c.fns |= set(e.fn_used)
    c.engine(e, ('null', 'bounds', 'uninit', 'undef', 'uaf', 'free'), 'safety: ')
    return n


def entry(w, st, i):
    p = w.v.getp(st, 'palette')
    off = st.const(p.l)
    o = w.e.objs[p.o]
    return [w.e.load_const(st, o, off + i * 3 + k, ('i', 8), 1, None) for k in range(3)]


def after(c, w, t, s, what, want, src):
    v, e = w.v, w.e
    p = v.getp(s, 'palette')
    if not c.ob('palette set', isinstance(p, Ptr) and s.const(p.l) is not None, what, what + ': no palette is in use'):
        return
    rows = PALETTES[want].split() if want != 'custom' else None
    for i in range(NUM):
        got = entry(w, s, i)
        for k in range(3):
            if rows:
                x = int(rows[i][2 * k:2 * k + 2], 16)
            else:
                x = e.load_const(s, e.objs[src.o], i * 3 + k, ('i', 8), 1, None)
            c.ob('palette entries', t.eq(s, got[k], x), '%s:%d' % (what, i), '%s: colour %d is not that of the palette' % (what, i))
    for f, i in (('fccode', FG), ('bccode', BG)):
        for a in ('def_attr', 'cattr'):
            c.ob('default codes', t.eq(s, v.get(s, a + '.' + f, 8), i), what + f, '%s: %s.%s is not the default colour' % (what, a, f))
    for p, i in (('f', FG), ('b', BG)):
        for ch, y in zip('rgb', entry(w, s, i)):
            for a in ('def_attr', 'cattr'):
                c.ob('default colours', t.eq(s, v.get(s, a + '.' + p + ch, 8), y), what + p + ch, '%s: the default colours are not those of the palette' % what)
    if want == 'custom':
        st = v.getp(s, 'custom_palette_storage')
        c.ob('custom in use', v.getp(s, 'palette') == st, what, what + ': the palette in use is not the stored custom palette')

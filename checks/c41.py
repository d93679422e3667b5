"""C41: new screens and terminals start in the defined power-up state."""
from .c13 import *
from .tab import ATTR8, ATTRB

RULE = ('the abstract state after tsm_screen_new() and after tsm_vte_new() (on an arbitrary screen) is compared, field by field and cell by '
        'cell, with the power-up state: an empty 80x24 main screen with tab stops every eight columns and no history, and a terminal in '
        'the VT220/xterm default modes')
ON = ('TEXT_CURSOR_MODE', 'AUTO_REPEAT_MODE', 'SEND_RECEIVE_MODE', 'AUTO_WRAP_MODE', 'BACKGROUND_COLOR_ERASE_MODE')
ZERO = ('opts', 'flags', 'margin_top', 'cursor_x', 'cursor_y', 'sb_count', 'sb_max', 'sb_pos_num', 'sel_active')
W, H = 80, 24


def table(w, s, p):
    """the 96 characters of a set, or None"""
    e = w.e
    p = e.resolve(s, p)
    if not isinstance(p, Ptr):
        return None
    out = []
    for i in range(96):
        x = e.load(s, Ptr(p.o, laddk(p.l, 4 * i)), ('i', 32), None)
        out.append(s.const(x.l) if isinstance(x, Int) else None)
    return out


def terminals(c, mod):
    w, new = made(c, mod)
    e = w.e
    t = Tab(w.v, c)
    key = 'tsm_vte_new'
    for s, o in new:
        off = lambda n: mod.member('tsm_vte', n)['off']
        ld = lambda n, z: e.load(s, Ptr(o, lc(off(n))), ('i', 8 * z), None)
        k = s.const(ld('flags', 4).l)
        want = sum(mod_flag(n) for n in ON)
        c.ob('modes', k == want, key, lambda: 'a new terminal has mode bits %#x, defined is %#x (%s)' % (k or 0, want, ', '.join(ON)))
        c.ob('parser', s.const(ld('state', 4).l) == mod.enum('STATE_GROUND'), key, 'the parser of a new terminal is not in its ground state')
        for n in ('csi_argc', 'csi_flags', 'osc_len', 'mouse_mode', 'mouse_event'):
            z = mod.member('tsm_vte', n)['size']
            c.ob('nothing pending', s.const(ld(n, z).l) == 0, key, lambda: 'a new terminal has %s set' % n)
        c.ob('nothing pending', machine(mod, e, s, o) is not None, key, 'the decoder of a new terminal is not initialised')
        for n, g in (('gl', 'g0'), ('gr', 'g1')):
            p = e.resolve(s, e.load(s, Ptr(o, lc(off(n))), ('p',), None))
            c.ob('character sets', isinstance(p, Ptr) and p.o == o and s.const(p.l) == off(g), key, lambda: '%s does not select %s' % (n.upper(), g.upper()))
        for n in ('glt', 'grt'):
            p = e.resolve(s, e.load(s, Ptr(o, lc(off(n))), ('p',), None))
            c.ob('character sets', p == NULL, key, 'a single shift is pending in a new terminal')
        for n, base in (('g0', 0x20), ('g1', 0xa0), ('g2', 0x20), ('g3', 0xa0)):
            tb = table(w, s, e.load(s, Ptr(o, lc(off(n))), ('p',), None))
            bad = None if tb is None else [i for i in range(1, 95) if tb[i] != base + i]      # the first and last place are never mapped
            c.ob('character sets', bad == [], key,
                 lambda: '%s of a new terminal is not %s' % (n.upper(), 'ASCII' if base == 0x20 else 'the upper half of Latin-1'))
        for n in ATTR8 + ATTRB:
            f, d = t.fidx['cattr.' + n], t.fidx['def_attr.' + n]
            x, y = [e.load(s, Ptr(o, lc(q[1])), ('i', 8), None) for q in (f, d)]
            if f[3] == 'bit':
                c.ob('attributes', e.bits(s, x)[f[4]] == 0 and e.bits(s, y)[d[4]] == 0, key, lambda: 'a new terminal writes %s text' % n)
            else:
                c.ob('attributes', t.same(s, x, y), key, lambda: 'the current %s of a new terminal is not the default' % n)
        for n, m in (('fccode', 'TSM_COLOR_FOREGROUND'), ('bccode', 'TSM_COLOR_BACKGROUND')):
            c.ob('attributes', s.const(ld('def_attr.' + n, 1).l) == mod.enum(m), key, lambda: 'the default %s is not %s' % (n, m))
        scr = Screen(t, w.v)
        scr.v = type('V', (), dict(o=e.objs[o], off=lambda self, n: off(n)))()
        for a in screen_calls(w, s):
            if a[1] != 'tsm_screen_ref':
                scr.apply(s, a)
        on = {n for n in ('INSERT_MODE', 'AUTO_WRAP', 'REL_ORIGIN', 'INVERSE', 'HIDE_CURSOR', 'FIXED_POS', 'ALTERNATE') if scr.bit(n) != 0}
        c.ob('screen modes', scr.all and on == {'AUTO_WRAP'}, key, lambda: 'the screen of a new terminal has modes %s' % sorted(on))
        c.ob('screen', scr.margins and scr.tabs and scr.shown and not scr.other, key, 'the scroll region, tab stops or buffer of the screen are not the defaults')
        c.ob('screen', scr.erased is True, key, 'the screen is not erased in the default attributes')
        sent = [a for a in s.events() if a[0] == 'cb']
        c.ob('silent', not sent, key, lambda: 'creating a terminal calls %s' % [a[1] for a in sent])
        c.cov['end states'] = c.cov.get('end states', 0) + 1


def screens(c, mod):
    e, done = new_screen(c, mod)
    key = 'tsm_screen_new'
    M = mod.members('tsm_screen')
    for s, p in done:
        o = e.objs[p.o]
        num = lambda n: s.const(e.load_const(s, o, M[n]['off'], ('i', 8 * M[n]['size']), M[n]['size'], None).l)
        ptr = lambda n: e.resolve(s, e.load_const(s, o, M[n]['off'], ('p',), 8, None))
        c.ob('size', (num('size_x'), num('size_y')) == (W, H), key, lambda: 'a new screen is %sx%s, defined is 80x24' % (num('size_x'), num('size_y')))
        if (num('size_x'), num('size_y')) != (W, H):
            continue
        for n in ZERO:
            c.ob('settings', num(n) == 0, key, lambda: 'a new screen has %s = %s' % (n, num(n)))
        c.ob('settings', num('margin_bottom') == H - 1, key, 'the scroll region of a new screen is not the whole screen')
        c.ob('settings', ptr('lines') == ptr('main_lines') and isinstance(ptr('lines'), Ptr) and ptr('lines') != ptr('alt_lines'), key,
             'a new screen does not show the main buffer')
        c.ob('settings', all(ptr(n) == NULL for n in ('sb_first', 'sb_last', 'sb_pos', 'sel_start.line', 'sel_end.line')), key,
             'a new screen has history or a selection')
        r = e.objs[ptr('tab_ruler').o]
        tabs = [i for i in range(W) if s.const(e.load_const(s, r, i, ('i', 8), 1, None).l)]
        c.ob('tab stops', tabs == list(range(0, W, 8)), key, lambda: 'the tab stops of a new screen are %s' % tabs)
        rows = set()
        A = mod.members('tsm_screen_attr')
        ao = mod.member('cell', 'attr')['off']
        leaves = {}
        for n, d in A.items():
            leaves.setdefault(d['off'], []).append((n, d['bit'] - d['off'] * 8 if d['bitfield'] else None))
        for which in ('main_lines', 'alt_lines'):
            q = e.objs[ptr(which).o]
            for y in range(H):
                l = e.resolve(s, e.load_const(s, q, 8 * y, ('p',), 8, None))
                c.ob('rows', isinstance(l, Ptr) and l.o not in rows and l.o not in s.freed, key, 'a row of a new screen is missing or shared')
                rows.add(l.o)
                cells = e.resolve(s, e.load_const(s, e.objs[l.o], mod.member('line', 'cells')['off'], ('p',), 8, None))
                z = mod.sizeof(('s', 'struct.cell'))
                for x in range(W):
                    at = lambda n, b: e.load_const(s, e.objs[cells.o], x * z + n, ('i', 8 * b), b, None)
                    ch, wd = at(mod.member('cell', 'ch')['off'], 4), at(mod.member('cell', 'width')['off'], 4)
                    c.ob('blank', s.const(ch.l) == 0 and s.const(wd.l) == 1, key, 'a cell of a new screen is not blank')
                    for d, names in leaves.items():
                        v = at(ao + d, 1)
                        w = e.load_const(s, o, M['def_attr']['off'] + d, ('i', 8), 1, None)
                        if names[0][1] is None:
                            ok = s.const(v.l) is not None and s.const(v.l) == s.const(w.l)
                        else:
                            b = e.bits(s, v)
                            ok = all(b[i] == 0 for n, i in names)
                        c.ob('blank', ok, key, lambda: 'a cell of a new screen has %s' % ', '.join(n for n, i in names))
        c.cov['end states'] = c.cov.get('end states', 0) + 1


def check(Check):
    c = Check('C41', 'proof', RULE)
    mod = load.module('lib')
    terminals(c, mod)
    screens(c, mod)
    c.floor('end states', c.cov.get('end states', 0), 2)
    c.assumptions.append('memory allocation succeeds (failing creation is C16)')
    c.sample('tsm_vte_new() on an arbitrary screen')
    return c.finish()

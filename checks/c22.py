"""C22: character sets, shifts and character widths."""
import unicodedata

from tsa import load
from .c13 import sequence
from .inputs import *

RULE = ('the 96 entries of every table a designation selects are read from the source and compared with the DEC tables; designations, '
        'locking and single shifts are interpreted from an arbitrary terminal; the mapping of printed characters is interpreted for every '
        'code of both halves and every shift state; the width function is interpreted on an arbitrary 32-bit value and its value on every '
        'path compared with the Unicode data')
NAMES = {'B': 'ASCII', '<': 'DEC supplemental', '0': 'DEC special graphics'}
SPECIAL = {0x60: (0x25c6, 0x2666), 0x61: 0x2592, 0x62: 0x2409, 0x63: 0x240c, 0x64: 0x240d, 0x65: 0x240a, 0x66: 0xb0, 0x67: 0xb1, 0x68: 0x2424,
           0x69: 0x240b, 0x6a: 0x2518, 0x6b: 0x2510, 0x6c: 0x250c, 0x6d: 0x2514, 0x6e: 0x253c, 0x6f: 0x23ba, 0x70: 0x23bb, 0x71: 0x2500,
           0x72: 0x23bc, 0x73: 0x23bd, 0x74: 0x251c, 0x75: 0x2524, 0x76: 0x2534, 0x77: 0x252c, 0x78: 0x2502, 0x79: 0x2264, 0x7a: 0x2265,
           0x7b: 0x3c0, 0x7c: 0x2260, 0x7d: 0xa3, 0x7e: (0xb7, 0x22c5), 0x5f: (0, 0x20, 0xa0)}
NONE = (0, 0xfffd)              # positions without a character
MCS = {0xa8: 0xa4, 0xd7: 0x152, 0xdd: 0x178, 0xf7: 0x153, 0xfd: 0xff}
MCS.update({k: NONE for k in (0xa4, 0xa6, 0xac, 0xad, 0xae, 0xaf, 0xb4, 0xb8, 0xbe, 0xd0, 0xde, 0xf0, 0xfe)})
# national replacement sets: final -> (name, codes that differ from ASCII)
P = (0x23, 0x40, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f, 0x60, 0x7b, 0x7c, 0x7d, 0x7e)
NRC = {'A': ('British', '£@[\\]^_`{|}~'), '4': ('Dutch', '£¾ĳ½|^_`¨ƒ¼´'), 'C': ('Finnish', '#@ÄÖÅÜ_éäöåü'), '5': ('Finnish', '#@ÄÖÅÜ_éäöåü'),
       'R': ('French', '£à°ç§^_`éùè¨'), 'Q': ('French Canadian', '#àâçêî_ôéùèû'), 'K': ('German', '#§ÄÖÜ^_`äöüß'),
       'Y': ('Italian', '£§°çé^_ùàòèì'), 'E': ('Norwegian', '#ÄÆØÅÜ_äæøåü'), '6': ('Norwegian', '#ÄÆØÅÜ_äæøåü'),
       'Z': ('Spanish', '£§¡Ñ¿^_`°ñç~'), 'H': ('Swedish', '#ÉÄÖÅÜ_éäöåü'), '7': ('Swedish', '#ÉÄÖÅÜ_éäöåü'),
       '=': ('Swiss', 'ùàéçêîèôäöüû')}


def reference(name):
    """[accepted values per position] of a table of 94 (positions 1-94 of 96)"""
    out = []
    for i in range(1, 95):
        k = 32 + i
        if name == 'ASCII':
            w = k
        elif name == 'Latin-1':
            w = 160 + i
        elif name == 'DEC special graphics':
            w = SPECIAL.get(k, k)
        elif name == 'DEC supplemental':
            w = MCS.get(160 + i, 160 + i)
        else:
            w = k
            t = next(v for v in NRC.values() if v[0] == name)[1]
            if k in P:
                w = ord(t[P.index(k)])
        out.append(w if isinstance(w, tuple) else (w,))
    return out


def content(e, s, p):
    if not isinstance(p, Ptr) or s.const(p.l) is None:
        return None
    o = e.objs[p.o]
    if o.size is None or (s.const(o.size) or 0) < s.const(p.l) + 96 * 4:
        return None
    v = [e.load_const(s, o, s.const(p.l) + 4 * i, ('i', 32), 4, None) for i in range(1, 95)]
    return [s.const(x.l) if isinstance(x, Int) else None for x in v]


def fits(vals, name):
    return vals is not None and all(v in w for v, w in zip(vals, reference(name)))


def terminal_at(c, mod, text):
    v, t, st = terminal(c, mod, 'GROUND', 0x40, 0x40, argc=0)
    pin_flags(v, st, PREPEND_ESCAPE=0, SEND_RECEIVE_MODE=1, **{'8BIT_MODE': 0, '7BIT_MODE': 0})
    sequence(v, text)
    return v, t, st


def designations(c, mod):
    n = 0
    for g, i in zip(GS, '()*+'):
        for f in [chr(x) for x in range(0x30, 0x7f)]:
            text = '\x1b' + i + f
            v, t, st = terminal_at(c, mod, text)
            init = t.initial()
            what = 'ESC %s %s' % (i, f)
            outs = v.run_char(st, 3)
            c.fns |= set(v.e.fn_used)
            c.ob('returns', bool(outs), what, what + ' never returns')
            for s, _ in outs:
                n += 1
                p = v.getp(s, g)
                vals = content(v.e, s, p)
                if f in NAMES:
                    c.ob('designated table', fits(vals, NAMES[f]), what, lambda: '%s does not designate the %s set into %s%s' % (
                        what, NAMES[f], g.upper(), diff(vals, NAMES[f])))
                elif f in NRC:
                    name = NRC[f][0]
                    latin = fits(vals, 'Latin-1')
                    c.ob('national table', fits(vals, name), '%s%s' % (name, ':Latin-1' if latin else ''), lambda: (
                        '%s designates %s instead of the %s replacement set' % (what, 'the upper half of Latin-1' if latin else 'another set', name)))
                else:
                    c.ob('unknown designations are ignored', t.same(s, v.getp(s, g), init[g]), what, '%s changes %s' % (what, g.upper()))
                for x in t.fields:
                    if x[0] != g:
                        c.ob('nothing else', t.same(s, t.load(s, x), init[x[0]]), '%s:%s' % (what, x[0]), lambda: '%s changes %s' % (what, x[0]))
                c.ob('nothing else', not t.acts(s), what, lambda: '%s acts: %s' % (what, t.names(s)))
    c.floor('designations', n, 300)


def diff(vals, name):
    if vals is None:
        return ' (no table)'
    return ' (%s)' % ', '.join('%#x gives %#x' % (33 + i, v or 0) for i, (v, w) in enumerate(zip(vals, reference(name))) if v not in w)[:80]


SHIFTS = [('\x0f', 'gl', 'g0'), ('\x0e', 'gl', 'g1'), ('\x1bn', 'gl', 'g2'), ('\x1bo', 'gl', 'g3'), ('\x1b~', 'gr', 'g1'), ('\x1b}', 'gr', 'g2'),
          ('\x1b|', 'gr', 'g3'), ('\x1bN', 'glt', 'g2'), ('\x1bO', 'glt', 'g3'), ('\x8e', 'glt', 'g2'), ('\x8f', 'glt', 'g3')]


def shifts(c, mod):
    n = 0
    for text, f, g in SHIFTS:
        v, t, st = terminal_at(c, mod, text)
        init = t.initial()
        what = repr(text)
        for s, _ in v.run_char(st, len(text)):
            n += 1
            p = v.getp(s, f)
            c.ob('shift', isinstance(p, Ptr) and p.o == v.o.id and s.const(p.l) == v.off(g), what, lambda: '%s does not invoke %s into %s' % (
                what, g.upper(), f.upper()))
            for x in t.fields:
                if x[0] != f:
                    c.ob('nothing else', t.same(s, t.load(s, x), init[x[0]]), '%s:%s' % (what, x[0]), lambda: '%s changes %s' % (what, x[0]))
        c.fns |= set(v.e.fn_used)
    c.floor('shifts', n, len(SHIFTS))


def mapping(c, mod):
    """printed characters: every code of both halves, every shift state"""
    n = 0
    codes = list(range(0x20, 0x80)) + list(range(0xa0, 0x102)) + [0x2500, 0xffff, 0x1f600]
    states = [(gl, gr, sl) for gl in range(4) for gr in range(4) for sl in (None, 2, 3)]
    for k, cp in enumerate(codes):
        full = cp in (0x20, 0x21, 0x41, 0x7e, 0x7f, 0xa0, 0xa1, 0xc5, 0xfe, 0xff, 0x100)
        for gl, gr, sl in (states if full else [states[(k * 7 + j * 17) % len(states)] for j in range(6)]):
            v, t, st = terminal_at(c, mod, chr(cp))
            e = v.e
            tabs = []
            for i in range(4):
                o = e.newobj('set%d' % i, 'arg', lc(96 * 4), ('a', 96, ('i', 32)), 'lazy')
                for j in range(96):
                    e.store_const(st, o, 4 * j, Int(32, lc(0x4000 + 0x100 * i + j)), 4)
                v.set(st, 'g%d' % i, Ptr(o.id), 8)
            ptr = lambda i: NULL if i is None else Ptr(v.o.id, lc(v.off('g%d' % i)))
            for f, i in (('gl', gl), ('gr', gr), ('glt', sl), ('grt', None)):
                v.set(st, f, ptr(i), 8)
            init = t.initial()
            half = 0 if 33 <= cp <= 126 else 1 if 161 <= cp <= 254 else None
            want = cp if half is None else 0x4000 + 0x100 * ((sl if sl is not None else gl) if half == 0 else gr) + cp - (32, 160)[half]
            what = 'printing %#x with GL=G%d, GR=G%d%s' % (cp, gl, gr, '' if sl is None else ', single shift G%d' % sl)
            key = 'printing a character of the %s' % (('left half', 'right half', 'unmapped range')[2 if half is None else half])
            # DEL is no printing character
            for s, _ in v.run_char(st, 1):
                n += 1
                w = [a for a in t.acts(s) if a[0] == 'api' and a[1] == 'tsm_screen_write']
                if cp == 0x7f:
                    c.ob('control characters are not mapped', len(w) <= 1 and (not w or s.const(w[0][2][0].l) == cp), key, what)
                    continue
                got = s.const(w[0][2][0].l) if len(w) == 1 else None
                c.ob('mapping', got == want, key, lambda: '%s writes %s instead of %#x' % (what, 'nothing' if got is None else hex(got), want))
                for f in ('glt', 'grt'):
                    c.ob('single shift ends', v.getp(s, f) == NULL, key, lambda: '%s: the single shift lasts longer than this character' % what)
                for x in t.fields:
                    if x[0] not in ('glt', 'grt'):
                        c.ob('nothing else', t.same(s, t.load(s, x), init[x[0]]), '%s:%s' % (key, x[0]), lambda: '%s changes %s' % (what, x[0]))
            c.fns |= set(e.fn_used)
    c.floor('characters printed', n, 1200)


def unicode_width(i):
    """({accepted widths}) of a code point: exact where old and new Unicode agree, else either"""
    ch = chr(i)
    fmt = i in (0, 0x34f, 0x2028, 0x2029) or 0x200b <= i <= 0x200f or 0x202a <= i <= 0x202e or 0x2060 <= i <= 0x2063
    if fmt:
        return (0,)

    def w(u):
        k = u.category(ch)
        return 0 if k in ('Cc', 'Mn', 'Me') else 2 if u.east_asian_width(ch) in 'WF' else 1
    a, b = w(unicodedata), w(unicodedata.ucd_3_2_0)
    if unicodedata.ucd_3_2_0.category(ch) == 'Cn' or a != b:
        return (0, 1, 2)
    return (a,)


def widths(c, mod):
    e = Engine(mod)
    e.peel = e.unroll = 64
    e.maxstates = 10 ** 6
    e.maxsteps = getattr(e, 'maxsteps', 0) * 10
    st = e.new_state()
    x = e.S.fresh(32, 'ucs4')
    outs = e.run('tsm_ucs4_get_width', [Int(32, ls(x))], st)
    c.fns |= set(e.fn_used)
    c.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef'))
    got = {}
    n = 0
    for s, r in outs:
        n += 1
        k = s.const(r.l)
        c.ob('width 0, 1 or 2', k in (0, 1, 2), 'tsm_ucs4_get_width', lambda: 'the width of %s is %s' % (s.d(x), k))
        for lo, hi in s.d(x):
            for i in range(lo, min(hi, 0x10ffff) + 1):
                got[i] = k
    miss = bad = None
    for i in range(0x110000):
        w = got.get(i)
        if w is None:
            miss = i
        elif w not in unicode_width(i):
            bad = bad or (i, w)
    c.ob('every code point has a width', miss is None, 'tsm_ucs4_get_width', lambda: 'no width for %#x' % miss)
    c.ob('width as in Unicode', bad is None, 'tsm_ucs4_get_width', lambda: 'the width of U+%04X is %d' % bad)
    c.floor('width paths', n, 300)
    # a symbol that is a code point is as wide as the code point
    e = Engine(mod)
    st = e.new_state()
    asked = []
    y = e.S.fresh(32, 'symbol', 0, 0x10ffff)

    def width(e, st, x, a):
        asked.append(a[0])
        return [(st, Int(32, ls(y)))]
    tab = e.newobj('symbols', 'opaque', None, None, 'opaque')
    e.stubs['tsm_ucs4_get_width'] = width
    z = Int(32, ls(y))
    outs = e.run('tsm_symbol_get_width', [Ptr(tab.id), z], st)
    c.ob('symbol width', bool(outs) and all(a == z or isinstance(a, Int) and lsub(a.l, z.l) == lc(0) for a in asked) and asked
         and all(isinstance(r, Int) and lsub(r.l, z.l) == lc(0) for s, r in outs), 'tsm_symbol_get_width',
         'the width of a plain symbol is not that of its code point')
    outs = e.run('tsm_symbol_get_width', [NULL, z], e.new_state())
    c.ob('symbol width', bool(outs) and all(s.const(r.l) == 0 for s, r in outs), 'tsm_symbol_get_width', 'without a table symbols are not invisible')
    c.fns |= set(e.fn_used)


def check(Check):
    c = Check('C22', 'proof', RULE)
    mod = load.module('lib')
    designations(c, mod)
    shifts(c, mod)
    mapping(c, mod)
    widths(c, mod)
    return c.finish()

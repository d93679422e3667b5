"""C35: text sent to the terminal arrives in the cells, in order, with the attributes current at that time."""
from .inputs import *
from .screens import *
from . import c05

RULE = ('tsm_screen_write(): the cell written, the cells it covers, the cells it moves in insert mode, the attributes, the wrap at the right '
        'edge and the cursor of every abstract end state are compared with the definition.  Printing a character: every printable code '
        'point from an arbitrary terminal hands the screen exactly one symbol with all the attribute flags current at that time.  Byte '
        'sequences of mixed lengths through the real decoder, also split between two calls: the characters arrive once each and in order.  '
        'Reading back is decided by C20 (drawing) and C21 (copying) from arbitrary cells.')
PRINT = [(0x20, 0x20), (0x21, 0x7e), (0xa0, 0xa0), (0xa1, 0xfe), (0xff, 0xff), (0x100, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)]
ATTRS = ('bold', 'italic', 'underline', 'inverse', 'protect', 'blink')
COLORS = ('fccode', 'bccode', 'fr', 'fg', 'fb', 'br', 'bg', 'bb')


class AttrEngine(VteEngine):
    def attr_of(self, st, p):
        off = st.const(p.l)
        o = self.objs[p.o]
        d = {}
        for n in COLORS:
            d[n] = self.load_const(st, o, off + self.m.member('tsm_screen_attr', n)['off'], ('i', 8), 1, None)
        for n in ATTRS:
            m = self.m.member('tsm_screen_attr', n)
            d[n] = self.bits(st, self.load_const(st, o, off + m['off'], ('i', 8), 1, None))[m['bit'] - m['off'] * 8]
        return tuple(d.items())


def same_bit(st, e, a, b):
    if a == b:
        return True
    return not isinstance(a, int) and not isinstance(b, int) and a == b


def identity(e, st, x, a):
    return [(st, a[1])]


def prepared(c, mod, state, lo, hi, cut=True):
    v, t, st = terminal(c, mod, state, lo, hi, argc=0, cut=cut, eng=AttrEngine(mod))
    pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0, **{'7BIT_MODE': 0, '8BIT_MODE': 0})
    if 'vte_map' not in mod.funcs:
        raise ir.IRError('anchor: vte_map is gone')
    v.e.stubs['vte_map'] = identity
    return v, t, st


def writes(s):
    return [q for q in s.events() if q[0] == 'api' and q[1] == 'tsm_screen_write']


def attributes(c, v, t, st, s, w, what):
    A = dict(w[4]) if w[4] else None
    if not c.ob('attributes passed', A is not None, what, '%s passes no attributes' % what):
        return
    e = v.e
    for n in ATTRS:
        m = v.m.member('tsm_screen_attr', n)
        b = e.bits(st, e.load_const(st, v.o, v.off('cattr') + m['off'], ('i', 8), 1, None))[m['bit'] - m['off'] * 8]
        c.ob('current attributes', A[n] == b, what + n, lambda: '%s: %s of the cell is not the current one' % (what, n))
    for n in COLORS:
        x = e.load_const(st, v.o, v.off('cattr') + v.m.member('tsm_screen_attr', n)['off'], ('i', 8), 1, None)
        c.ob('current attributes', t.eq(s, A[n], x), what + n, lambda: '%s: %s of the cell is not the current one' % (what, n))


def printing(c, mod):
    n = 0
    for lo, hi in PRINT:
        v, t, st = prepared(c, mod, 'GROUND', lo, hi)
        # direct colours: palette colours are C23's subject
        what = 'printing U+%04X..U+%04X' % (lo, hi)
        init = t.initial()
        for k in COLORS:
            v.e.load_const(st, v.o, v.off('cattr') + mod.member('tsm_screen_attr', k)['off'], ('i', 8), 1, None)
        for k in ATTRS:
            v.e.load_const(st, v.o, v.off('cattr') + mod.member('tsm_screen_attr', k)['off'], ('i', 8), 1, None)
        for s, r in v.run_char(st.clone()):
            n += 1
            w = writes(s)
            c.ob('one cell per character', len(w) == 1, what, lambda: '%s writes %d symbols' % (what, len(w)))
            c.ob('nothing else happens', len(t.acts(s)) == len(w), what, lambda: '%s: %s' % (what, t.names(s)))
            for q in w:
                c.ob('symbol', t.eq(s, q[2][0], ls(v.cp)), what, lambda: '%s writes another symbol' % what)
                attributes(c, v, t, st, s, q, what)
            for x in t.fields:
                if x[0] not in ('glt', 'grt', 'parse_cnt'):
                    c.ob('settings kept', t.same(s, t.load(s, x), init[x[0]]), '%s:%s' % (what, x[0]), lambda: '%s changes %s' % (what, x[0]))
        c.fns |= set(v.e.fn_used)
    c.floor('printing paths', n, len(PRINT))


# aligned classes, so that the range tests of the decoder are decided by known bits; the others are decided in C05
FORMS = {1: [(0x20, 0x7e)], 2: [(0xc8, 0xcf), (0x80, 0xbf)], 3: [(0xe4, 0xe7), (0x80, 0xbf), (0x80, 0xbf)],
         4: [(0xf2, 0xf3), (0x80, 0xbf), (0x80, 0xbf), (0x80, 0xbf)]}
TEXTS = [(1, 1, 1), (1, 2, 1), (2, 2), (3, 1), (1, 3), (4, 1), (1, 4), (2, 3), (3, 4)]


def texts(c, mod, th):
    n = 0
    for text in TEXTS + ([(4, 3, 2, 1), (1, 1, 1, 1, 1, 1), (3, 3, 3), (4, 4)] if th else []):
        total = sum(text)
        for cut in range(total):            # 0: one call
            v, t, st = prepared(c, mod, 'GROUND', 0, 0, cut=False)
            e = v.e
            m = e.newobj('decoder', 'arg', lc(8), None, 'lazy')
            e.store_const(st, m, mod.member('tsm_utf8_mach', 'state')['off'], Int(32, lc(mod.enum('TSM_UTF8_START'))), 4)
            e.store_const(st, m, mod.member('tsm_utf8_mach', 'ch')['off'], Int(32, ls(e.S.fresh(32, 'ch'))), 4)
            v.set(st, 'mach', Ptr(m.id), 8)
            b = e.newobj('input', 'arg', lc(total), ('a', total, ('i', 8)), 'lazy')
            i = 0
            chars = []
            for k in text:
                syms = []
                for lo, hi in FORMS[k]:
                    syms.append(e.S.fresh(8, 'byte%d' % i, lo, hi))
                    e.store_const(st, b, i, Int(8, ls(syms[-1])), 1)
                    i += 1
                chars.append(syms)
            what = 'text of %s bytes%s' % ('+'.join(map(str, text)), '' if not cut else ' sent in two parts of %d and %d' % (cut, total - cut))
            ends = [(st, None)]
            for at, ln in ((0, cut), (cut, total - cut)):
                if ln:
                    ends = [y for s, _ in ends for y in e.run('tsm_vte_input', [v.p, Ptr(b.id, lc(at)), Int(64, lc(ln))], s)]
            c.ob('returns', bool(ends), what, what + ' never returns')
            for s, _ in ends:
                n += 1
                w = writes(s)
                c.ob('every character once', len(w) == len(text), what, lambda: '%s: %d symbols are written' % (what, len(w)))
                for q, syms in zip(w, chars):
                    want = e.from_bits(s, c05.value(e, s, syms), 32)
                    gb, wb = e.bits(s, q[2][0]), e.bits(s, want)
                    c.ob('characters in order', t.eq(s, q[2][0], want) or gb == wb, what, lambda: '%s: another character or order' % what)
            c.fns |= set(e.fn_used)
    c.floor('text paths', n, 30)


def check(Check):
    th = Check('C35', 'other', '').thorough
    mod = load.module('lib')
    j = shapes.writes(th) + shapes.wide('writes')

    def also(c):
        printing(c, mod)
        texts(c, mod, th)
    return run('C35', RULE, j, ('cursor', 'frame', 'rows', 'other', 'history'), least=len(j), also=also)

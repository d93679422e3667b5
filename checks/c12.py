"""C12: Select Graphic Rendition codes have exactly their standard effect."""
from tsa import load
from .c32 import start, unchanged
from .inputs import *

RULE = ('the attribute sequence is interpreted on parameter lists with arbitrary codes in every position, all indexed and direct '
        'colours, truncated and malformed colour lists; the resulting attributes on every abstract path are compared with the code table')

NAMES = ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'LIGHT_GREY', 'DARK_GREY', 'LIGHT_RED', 'LIGHT_GREEN',
         'LIGHT_YELLOW', 'LIGHT_BLUE', 'LIGHT_MAGENTA', 'LIGHT_CYAN', 'WHITE']
ON = {1: 'bold', 3: 'italic', 4: 'underline', 5: 'blink', 7: 'inverse'}
OFF = {22: 'bold', 23: 'italic', 24: 'underline', 25: 'blink', 27: 'inverse'}
BITS = ('bold', 'italic', 'underline', 'inverse', 'blink', 'protect')
LEVEL = (0, 0x5f, 0x87, 0xaf, 0xd7, 0xff)
CODES = sorted([0, 39, 49] + list(ON) + list(OFF) + list(range(30, 38)) + list(range(40, 48)) + list(range(90, 98)) + list(range(100, 108)))


def ref(mod, a, codes, default):
    """specified effect; a: {'f': (code, r, g, b), 'b': ..., bit: value}; codes: list of ints / (38, n) / (48, r, g, b)"""
    pal = [mod.enum('TSM_COLOR_' + n) for n in NAMES]
    for x in codes:
        if isinstance(x, tuple):
            k = 'f' if x[0] == 38 else 'b'
            if len(x) == 4:
                a[k] = (255,) + x[1:]
            elif x[1] < 16:
                a[k] = (x[1], None, None, None)
            elif x[1] < 232:
                n = x[1] - 16
                a[k] = (255, LEVEL[n // 36], LEVEL[n // 6 % 6], LEVEL[n % 6])
            else:
                a[k] = (255,) + (8 + 10 * (x[1] - 232),) * 3
            continue
        if x == 0:
            a['f'], a['b'] = default
            for n in BITS[:5]:
                a[n] = 0
        elif x in ON:
            a[ON[x]] = 1
        elif x in OFF:
            a[OFF[x]] = 0
        elif x in (39, 49):
            a['f' if x == 39 else 'b'] = default[x == 49]
        elif x is not None:
            for base, k, o in ((30, 'f', 0), (40, 'b', 0), (90, 'f', 8), (100, 'b', 8)):
                if base <= x < base + 8:
                    a[k] = (pal[x - base + o], None, None, None)
    return a


def check(Check):
    c = Check('C12', 'proof', RULE)
    mod = load.module('lib')
    stat = {'paths': 0, 'runs': 0}
    seen = set()

    def color(t, get, pre, k):
        return tuple(get('%s.%s' % (pre, x)) for x in (('fccode', 'fr', 'fg', 'fb') if k == 'f' else ('bccode', 'br', 'bg', 'bb')))

    def run(args, spec, full=False):
        """args: list with ANYV for arbitrary codes; spec(list of arbitrary codes) -> effective codes"""
        stat['runs'] += 1
        v, t, st = start(c, mod, 'STATE_CSI_PARAM', 0x6d, 0x6d, args, 0)
        v.e.split_idx = 1
        for i, x in enumerate(args):
            if isinstance(x, tuple):
                s = v.e.S.fresh(32, 'component%d' % i, x[0], x[1])
                v.set(st, 'csi_argv', Int(32, ls(s)), 4, i)
        if not full:
            # old colours are direct ones (palette look-up is C23's subject)
            for x in ('cattr.fccode', 'cattr.bccode', 'def_attr.fccode', 'def_attr.bccode'):
                v.set(st, x, Int(8, lc(255)), 1)
        init = t.initial()
        a = [v.get(st, 'csi_argv', 32, i) for i in range(len(args))]
        for s0, r in v.run_char(st):
            todo = [(s0, [])]
            for i, x in enumerate(args):
                if x is not ANYV:
                    continue
                tab = CODES
                rest = [[(38, 38), (48, 48)], None]
                nxt = []
                for s, l in todo:
                    for s2, j in t.split(s, a[i], [[(k, k)] for k in tab] + rest):
                        if j == len(tab):
                            nxt.append((s2, l + ['colour']))
                        else:
                            nxt.append((s2, l + [tab[j] if j < len(tab) else None]))
                todo = nxt
            for s, l in todo:
                if 'colour' in l:
                    continue            # extended colours have lists of their own below
                if len(args) == 1 and args[0] is ANYV:
                    # a single missing parameter means zero
                    for s2, j in t.split(s, a[0], [[(-(1 << 31), -1)], None]):
                        judge(t, s2, init, [0] if j == 0 else spec(l, a), args, l if j else [0], full)
                    continue
                judge(t, s, init, spec(l, a), args, l, full)
        c.fns |= set(v.e.fn_used)
        c.engine(v.e, ('bounds', 'uninit'), 'safety: ')

    def judge(t, s, init, codes, args, l, full):
        v = t.v
        stat['paths'] += 1
        for x in codes:
            seen.add(x[:1] + (len(x),) if isinstance(x, tuple) else x)
        shown = ';'.join('%s' % ('<%s>' % ('other' if l[args[:i].count(ANYV)] is None else l[args[:i].count(ANYV)]) if x is ANYV else
                                 '' if x == -1 else 'n' if isinstance(x, tuple) else x) for i, x in enumerate(args) if x != -1 or len(args) < 5)
        what = 'CSI %s m' % shown
        get0 = lambda n: init[n]
        first, last, cache = {}, {}, {}
        for n in BITS:
            f = t.fidx['cattr.' + n]
            if f[1] not in cache:
                cache[f[1]] = t.e.bits(s, init['cattr.' + n]), t.e.bits(s, t.load(s, f))
            first[n] = cache[f[1]][0][f[4]]
            last[n] = cache[f[1]][1][f[4]]
        a = dict(first, f=color(t, get0, 'cattr', 'f'), b=color(t, get0, 'cattr', 'b'))
        default = (color(t, get0, 'def_attr', 'f'), color(t, get0, 'def_attr', 'b'))
        a = ref(mod, a, codes, default)
        for n in BITS:
            w = a[n]
            w = s.bit(*w) if isinstance(w, tuple) else w
            g = last[n]
            g = s.bit(*g) if isinstance(g, tuple) else g
            c.ob('attribute bits', g == w, what + ':' + n, '%s: %s is not as the standard says' % (what, n))
        for k, nm in (('f', 'foreground'), ('b', 'background')):
            got = color(t, lambda n: t.load(s, t.fidx[n]), 'cattr', k)
            w = a[k]
            ok = t.eq(s, got[0], w[0]) if not isinstance(w[0], Int) else t.same(s, got[0], w[0])
            c.ob('colour codes', ok, what + ':' + nm, '%s: wrong %s colour code' % (what, nm))
            # direct components matter only without a palette code
            if w[1] is not None:
                for s2, i in t.split(s, got[0], [[(0, 127)], None], signed=False):
                    if i == 0:
                        continue
                    for x, y, q in zip(got[1:], w[1:], 'rgb'):
                        ok = t.same(s2, x, y) if isinstance(y, Int) and y.w == 8 else t.eq(s2, x, y)
                        c.ob('direct colours', ok, what + ':' + nm + q, '%s: wrong component %s of the %s colour' % (what, q, nm))
        for s2, q in t.bit_split(s, init['flags'], mod_flag('BACKGROUND_COLOR_ERASE_MODE')):
            acts = t.acts(s2)
            ok = len(acts) == int(q) and all(x[1] == 'tsm_screen_set_def_attr' and isinstance(x[2][0], Ptr) and x[2][0].o == v.o.id and
                                             s2.const(x[2][0].l) == v.off('cattr') for x in acts)
            c.ob('erase colour', ok, what, lambda: '%s: the erase attributes of the screen are %supdated [%s]' % (
                what, 'not ' if q else '', t.names(s2)))
        if full:
            unchanged(c, t, s, init, what, ('cattr',))

    plain = lambda l, a: l
    run([ANYV], plain, True)
    run([], lambda l, a: [0], True)
    run([ANYV, ANYV], plain)
    for k in (range(16) if c.thorough else (1, 4, 9, 14, 15)):
        for noop in (-1, 5000):
            x = [noop] * 16
            x[k] = ANYV
            run(x, plain)
    run([1, ANYV, 4], lambda l, a: [1] + l + [4])
    run([0, ANYV], lambda l, a: [0] + l)
    for q in (38, 48):
        # indexed colours, with codes before and after, and at the end of a full list
        for n in range(256):
            run([q, 5, n], lambda l, a, n=n: [(q, n)], n in (3, 100, 250))
        for n in (0, 15, 16, 231, 232, 255):
            run([1, q, 5, n, ANYV], lambda l, a, n=n: [1, (q, n)] + l)
            run([-1] * 13 + [q, 5, n], lambda l, a, n=n: [(q, n)])
            run([ANYV, q, 5, n], lambda l, a, n=n: l + [(q, n)])
        comp = lambda k: lambda l, a, k=k: [(q,) + tuple(norm8(x) for x in a[k:k + 3])]
        B = (0, 255)
        run([q, 2, B, B, B], comp(2), True)
        run([-1] * 11 + [q, 2, B, B, B], comp(13))
        run([4, q, 2, B, B, B, ANYV], lambda l, a: [4] + comp(3)(l, a) + l)
        run([q, 2, B, B, B, 86 - q, 2, B, B, B], lambda l, a: comp(2)(l, a) + [(86 - q,) + tuple(norm8(x) for x in a[7:10])])
        # truncated lists, in front and at the end of the list
        for cut in ([q], [q, 5], [q, 2], [q, 2, B], [q, 2, B, B]):
            for pre in ([], [3], [-1] * (16 - len(cut)), [3] + [-1] * (15 - len(cut))):
                run(pre + cut, lambda l, a, pre=pre: [3] if 3 in pre else [])
        # missing components
        for bad in ([q, 5, -1], [q, 2, -1, B, B], [q, 2, B, -1, B], [q, 2, B, B, -1], [q, 2, -1, -1, -1]):
            run([7] + bad + [ANYV], lambda l, a: [7] + l)
        # unknown colour spaces: ignored; the following parameters are ordinary codes
        for sel in (-1, 0, 6, 9999):
            run([q, sel, 8], lambda l, a, sel=sel: [sel] if sel == 0 else [])
    c.floor('parameter lists', stat['runs'], 600)
    c.floor('abstract paths', stat['paths'], 4000)
    c.floor('codes', len(seen), 44)
    return c.finish()


def norm8(x):
    return x.l

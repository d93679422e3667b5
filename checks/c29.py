"""C29: mouse reports are sent only when requested and encode the event faithfully."""
from tsa import load
from .c32 import start, unchanged
from .inputs import *

RULE = ('the mouse handler is interpreted with arbitrary tracking state, coordinates, button and modifiers; the mode sequences with '
        'arbitrary parameters; output format and numbers, result, tracking fields and subscriber calls on every abstract path are '
        'compared with the table')

X10, BTN, ANY, SGR, PIX = 9, 1002, 1003, 1006, 1016


def check(Check):
    c = Check('C29', 'proof', RULE)
    mod = load.module('lib')
    for n, v in (('TSM_VTE_MOUSE_MODE_X10', X10), ('TSM_VTE_MOUSE_EVENT_BTN', BTN), ('TSM_VTE_MOUSE_EVENT_ANY', ANY),
                 ('TSM_VTE_MOUSE_MODE_SGR', SGR), ('TSM_VTE_MOUSE_MODE_PIXEL', PIX)):
        c.ob('constants', load.macro(n) == v, n, '%s is not %d' % (n, v))
    paths = reports(c, mod) + tracking(c, mod)
    c.floor('abstract paths', paths, 500)
    return c.finish()


def reports(c, mod):
    n = 0
    for mode in (0, X10, SGR, PIX):
        for ev in (0, BTN, ANY):
            for event in (1, 2, 4):
                for btn in (0, 1, 2, 4, 5):
                    n += one(c, mod, mode, ev, event, btn)
    return n


def one(c, mod, mode, ev, event, btn):
    v, t, st = terminal(c, mod, None, 0, 0)
    pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0)
    e = v.e
    v.setc(st, 'mouse_mode', mode)
    v.setc(st, 'mouse_event', ev)
    BIG = (1 << 31) - 2
    pos = [e.S.fresh(32, x, 0, BIG) for x in ('cell_x', 'cell_y', 'pixel_x', 'pixel_y')]
    m = e.S.fresh(8, 'modifiers')
    mods = e.from_bits(st, [0, 0] + e.bits(st, Int(8, ls(m)))[2:5] + [0, 0, 0], 8)
    init = t.initial()
    args = [v.p] + [Int(32, ls(x)) for x in pos] + [Int(32, lc(btn)), Int(32, lc(event)), mods]
    what = 'mode %d, tracking %d, event %s, button %d' % (mode, ev, {1: 'press', 2: 'release', 4: 'motion'}[event], btn)
    b = {4: 64, 5: 65}.get(btn, btn)
    code = e.bits(st, mods)
    code = [1 if b >> i & 1 else x for i, x in enumerate(code)]
    n = 0
    moved = event == 4
    sent0 = mode == X10 or mode in (SGR, PIX) and ev != 0
    if moved and (mode == X10 or ev != ANY):
        sent0 = False
    x1, y1 = laddk(ls(pos[0]), 1), laddk(ls(pos[1]), 1)
    for s0, ret in e.run('tsm_vte_handle_mouse', args, st):
        todo = [(s0, sent0)]
        if sent0 and mode == SGR and moved:
            # motion inside the cell reported last is not repeated
            todo = []
            for s1, same in equal(t, s0, x1, init['mouse_last_col'].l):
                if not same:
                    todo.append((s1, True))
                else:
                    for s2, same2 in equal(t, s1, y1, init['mouse_last_row'].l):
                        todo.append((s2, not same2))
        for s, sent in todo:
            n += 1
            acts = t.acts(s)
            w = [a for a in acts if a[0] == 'cb' and a[1] == 'write_cb']
            c.ob('reports on request', len(acts) == len(w) == int(sent), what, lambda: '%s: %s' % (what, t.names(s)))
            k = truth(t, s, ret)
            c.ob('result', k == int(sent), what, '%s: the result does not say whether a report was sent' % what)
            allow = ()
            if sent and mode == SGR and moved:
                ok = t.eq(s, t.load(s, t.fidx['mouse_last_col']), x1) and t.eq(s, t.load(s, t.fidx['mouse_last_row']), y1)
                c.ob('last position', ok, what, '%s: the reported cell is not remembered' % what)
                allow = ('mouse_last_col', 'mouse_last_row')
            unchanged(c, t, s, init, what, allow)
            if not sent or len(w) != 1:
                continue
            if mode == X10:
                cb = code if event == 1 else [1, 1] + code[2:] if event == 2 else code
                if event == 2:
                    cb = [1, 1] + e.bits(s, mods)[2:]
                ok = x10(t, s, w[0], cb, pos)
                c.ob('X10 encoding', ok, what, lambda: '%s: sends %s' % (what, t.name(s, w[0])))
            else:
                cb = [35 >> i & 1 for i in range(8)] if moved else code
                fin = 'm' if event == 2 else 'M'
                p = (x1, y1) if mode == SGR else (ls(pos[2]), ls(pos[3]))
                ok = sgr(t, s, w[0], cb, p, fin)
                c.ob('SGR encoding', ok, what, lambda: '%s: sends %s' % (what, t.name(s, w[0])))
            if n % 7 == 0:
                c.sample('%s: %s' % (what, t.name(s, w[0])))
    c.fns |= set(e.fn_used)
    c.engine(e, ('format', 'bounds', 'uninit'), 'reports: ')
    return n


def truth(t, s, ret):
    if isinstance(ret, Cond):
        d = t.e.decide(s, ret)
        return None if d is None else int(d)
    return s.const(ret.l)


def equal(t, st, a, b):
    """partition by a == b"""
    out = []
    d = lsub(a, b)
    for f in (lambda s: s.assume_eq(a, b), lambda s: s.assume(laddk(d, -1)), lambda s: s.assume(laddk(lscale(d, -1), -1))):
        s = st.clone()
        try:
            f(s)
        except Infeasible:
            continue
        out.append((s, not out and s.proveq(a, b)))
    return out


def fmt(t, s, a):
    d = a[3]
    if not (isinstance(d, tuple) and d and d[0] == 'fmt' and d[2]):
        return None
    return d[1]


def pieces(t, s, a):
    """flatten into characters and values; None when the text is not known"""
    f = fmt(t, s, a)
    d = a[3]
    if f is None and isinstance(d, tuple) and d and d[0] != 'fmt':
        # plain bytes instead of formatted text
        f = [bytes([x]) if isinstance(x, int) else ('c', '', x.l, 8) for x in d]
    if f is None:
        return None
    out = []
    for p in f:
        if isinstance(p, bytes):
            out += list(p)
        elif p[1] != '':
            return None
        else:
            out.append(p)
    return out


def number(t, s, p, bits=None, lin=None):
    """is piece p (a value or its decimal digits) the given number"""
    if isinstance(p, list):
        try:
            k = int(bytes(p))
        except ValueError:
            return False
        return bits == [k >> i & 1 for i in range(8)] and k < 256 if bits is not None else s.proveq(lc(k), lin)
    if p[0] not in 'udc':
        return False
    if lin is not None:
        return s.proveq(p[2], lin)
    b = t.e.bits(s, Int(32, p[2]))
    b = [s.bit(*x) if isinstance(x, tuple) else x for x in b]
    w = [s.bit(*x) if isinstance(x, tuple) else x for x in bits]
    return b[:8] == w and (p[0] == 'c' or not any(b[8:]))


def fields(ps, seps):
    """split the flattened text at the given literal separators"""
    out, cur = [], []
    i = 0
    for x in ps:
        if i < len(seps) and x == seps[i]:
            out.append(cur)
            cur = []
            i += 1
        else:
            cur.append(x)
    out.append(cur)
    return out if i == len(seps) else None


def val(f):
    if len(f) == 1 and isinstance(f[0], tuple):
        return f[0]
    if f and all(isinstance(x, int) for x in f):
        return f
    return None


def sgr(t, s, a, cb, p, fin):
    ps = pieces(t, s, a)
    if ps is None or ps[:3] != [0x1b, 0x5b, 0x3c]:
        return False
    if isinstance(ps[-1], tuple):
        if ps[-1][0] != 'c' or s.const(ps[-1][2]) != ord(fin):
            return False
    elif ps[-1] != ord(fin):
        return False
    f = fields(ps[3:-1], [0x3b, 0x3b])
    if not f:
        return False
    f = [val(x) for x in f]
    return None not in f and number(t, s, f[0], bits=cb) and number(t, s, f[1], lin=p[0]) and number(t, s, f[2], lin=p[1])


def x10(t, s, a, cb, pos):
    ps = pieces(t, s, a)
    if ps is None or len(ps) != 6 or ps[:3] != [0x1b, 0x5b, 0x4d]:
        return False
    vals = [x for x in ps[3:]]
    base = t.e.from_bits(s, cb + [0] * 24, 32)
    first = vals[0]
    want = laddk(base.l, 32)
    ok = isinstance(first, tuple) and first[0] == 'c' and eq8(t, s, first[2], want) or isinstance(first, int) and eq8(t, s, lc(first), want)
    if not ok:
        return False
    for x, p in zip(vals[1:], pos):
        l = x[2] if isinstance(x, tuple) and x[0] == 'c' else lc(x) if isinstance(x, int) else None
        if l is None:
            return False
        for s2, i in t.split(s, Int(32, ls(p)), [[(0, 0xff - 0x21)], None], signed=False):
            if not eq8(t, s2, l, laddk(ls(p), 0x21) if i == 0 else lc(0xff)):
                return False
    return True


def eq8(t, s, a, b):
    x = t.e.cast(s, 'trunc', ('i', 32), Int(32, a), ('i', 8))
    y = t.e.cast(s, 'trunc', ('i', 32), Int(32, b), ('i', 8))
    return t.same(s, x, y)


def tracking(c, mod):
    n = 0
    lists = [[ANYV], [ANYV, ANYV], [-1] * 15 + [ANYV], [5000, ANYV, 7]]
    for args in lists:
        for ch in (0x68, 0x6c):
            on = ch == 0x68
            v, t, st = start(c, mod, 'STATE_CSI_PARAM', ch, ch, args, 0x4)
            for f, vals in (('mouse_mode', (0, X10, SGR, PIX)), ('mouse_event', (0, BTN, ANY))):
                st.set_dom(v.get(st, f).l[1][0][0], inorm([(x, x) for x in vals]))
            # the remaining modes are C11's subject
            pin_flags(v, st, TITE_INHIBIT_MODE=1, ORIGIN_MODE=0)
            init = t.initial()
            a = [v.get(st, 'csi_argv', 32, i) for i in range(len(args))]
            tab = [X10, BTN, ANY, SGR, PIX]
            for s0, r in v.run_char(st):
                todo = [(s0, [])]
                for i, x in enumerate(args):
                    if x is ANYV:
                        todo = [(s2, l + [tab[j] if j < 5 else None]) for s, l in todo for s2, j in
                                t.split(s, a[i], [[(k, k)] for k in tab] + [None])]
                for s, l in todo:
                    for s1, m in t.split(s, init['mouse_mode'], [[(x, x)] for x in (0, X10, SGR, PIX)], signed=False):
                        for s2, q in t.split(s1, init['mouse_event'], [[(x, x)] for x in (0, BTN, ANY)], signed=False):
                            n += 1
                            judge(c, t, s2, l, on, (0, X10, SGR, PIX)[m], (0, BTN, ANY)[q])
            c.fns |= set(v.e.fn_used)
    return n


def judge(c, t, s, codes, on, mode, ev):
    what = 'CSI ? %s %s with mode %d, tracking %d' % (';'.join('other' if x is None else str(x) for x in codes), 'h' if on else 'l', mode, ev)
    want = []
    for x in codes:
        if x == X10:
            mode, ev = (X10 if on else 0), BTN
            want.append((ev, 0))
        elif x in (BTN, ANY):
            ev = BTN if mode == X10 else x if on else 0
            if mode:
                want.append((ev, int(mode == PIX)))
        elif x in (SGR, PIX):
            mode = x if on else 0
            if not on or ev:
                want.append((ev, int(mode == PIX)))
    v = t.v
    c.ob('tracking state', t.eq(s, v.get(s, 'mouse_mode'), mode) and t.eq(s, v.get(s, 'mouse_event'), ev), what,
         '%s: wrong tracking mode afterwards' % what)
    cbs = [a for a in t.acts(s) if a[0] == 'cb' and a[1] == 'mouse_cb']
    inst = t.e.resolve(s, t.e.load(s, Ptr(v.o.id, lc(v.off('mouse_cb'))), ('p',), None))
    if inst is NULL:
        want = []
    ok = len(cbs) == len(want) and all(t.eq(s, a[2][1], w[0]) and flag(t, s, a[2][2]) == w[1] and isinstance(a[2][0], Ptr) and
                                       a[2][0].o == v.o.id for a, w in zip(cbs, want))
    c.ob('subscriber', ok, what, lambda: '%s: the subscriber is told [%s], specified: %s' % (what, '; '.join(t.name(s, a) for a in cbs), want))


def flag(t, s, x):
    if isinstance(x, Cond):
        d = t.e.decide(s, x)
        return None if d is None else int(d)
    return s.const(x.l)

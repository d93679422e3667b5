"""C40: saving and restoring the cursor is exact."""
from .c23 import World
from .inputs import *
from tsa import load
from .common import Check

RULE = ('the two sequences are analysed as a round trip: ESC 7 from an arbitrary terminal, every field the save does not own replaced by '
        'an arbitrary value (any input in between), ESC 8; rendition, shifts, autowrap, origin mode and absolute cursor position must '
        'provably equal the values before the save and every other setting the value before the restore. One arbitrary input character '
        'in every parser state must leave the saved values alone unless it saves or resets. A restore without a save is analysed from '
        'the state tsm_vte_new() leaves and must give its defaults')
OWN = 'saved_state.'
SAVED = ('cattr.', 'gl', 'gr')


def run_esc(c, v, mod, st, ch):
    e = v.e
    v.setc(st, 'state', mod.enum('STATE_ESC'))
    v.setc(st, 'csi_flags', 0)
    v.set(st, 'parse_cnt', Int(64, lc(0)), 8)
    st.set_dom(v.cp, ((ch, ch),))
    out = v.run_char(st)
    c.fns |= set(e.fn_used)
    return out


def arbitrary(v, t, st, codes):
    """any input between save and restore: every other setting takes an arbitrary value"""
    e = v.e
    for n, off, size, kind, bit in t.fields:
        top = n.split('.')[0]
        if n.startswith(OWN) or top in ('write_cb', 'data', 'osc_cb', 'osc_data', 'mouse_cb', 'mouse_data', 'llog', 'llog_data', 'palette',
                                        'palette_name', 'custom_palette_storage', 'def_attr', 'g0', 'g1', 'g2', 'g3'):
            continue
        if kind == 'ptr':
            s = e.S.fresh(2, n + "'")
            e.store_const(st, v.o, off, Ptr(v.o.id, (v.off('g0'), ((s, 8),))), 8)
        elif kind == 'int':
            old = e.load_const(st, v.o, off, ('i', size * 8), size, None)
            k = st.const(old.l) if isinstance(old, Int) else None
            e.store_const(st, v.o, off, Int(size * 8, ls(e.S.fresh(size * 8, n + "'"))), size)
        else:
            e.store_const(st, v.o, off, Int(8, ls(e.S.fresh(8, n + "'"))), 1)
    for f, x in zip(('fccode', 'bccode'), codes):
        v.set(st, 'cattr.' + f, Int(8, lc(x)), 1)
    pin_flags(v, st, **{'8BIT_MODE': 0, '7BIT_MODE': 0, 'PREPEND_ESCAPE': 0, 'SEND_RECEIVE_MODE': 1})
    st.gh['epoch'] = 1000


def bit(t, s, flags, name):
    """a mode bit as 0, 1 or a symbolic bit"""
    b = t.e.bits(s, flags)[mod_flag(name).bit_length() - 1]
    return s.bit(*b) if isinstance(b, tuple) else b


def split_modes(t, s, vals):
    """partition so that every given (flags, name) bit is known; yields (state, [0/1])"""
    work = [(s, [])]
    for flags, n in vals:
        nxt = []
        for s1, a in work:
            for s2, k in t.bit_split(s1, flags, mod_flag(n)):
                nxt.append((s2, a + [int(k)]))
        work = nxt
    return work


def screen_moves(t, s, acts, origin):
    """(absolute position the cursor ends at or None, origin bit, autowrap bit) after the screen calls"""
    from . import scr
    rel, wrap, pos, other = origin, None, None, []
    R, A = scr.flag('REL_ORIGIN'), scr.flag('AUTO_WRAP')
    for a in acts:
        if a[0] != 'api':
            other.append(a[1])
            continue
        n = a[1]
        if n in ('tsm_screen_set_flags', 'tsm_screen_reset_flags'):
            k = s.const(a[2][0].l)
            if k is None or k & ~(R | A):
                other.append(n)
                continue
            if k & R:
                rel = int(n == 'tsm_screen_set_flags')
            if k & A:
                wrap = int(n == 'tsm_screen_set_flags')
        elif n == 'tsm_screen_move_to':
            pos = a[2] if rel == 0 else None
        elif n == 'tsm_screen_set_def_attr':
            pass
        else:
            other.append(n)
    return pos, rel, wrap, other


def judge(c, v, t, s, what, want, before, cur, codes):
    """state s after a restore: want = values before the save, before = values before the restore"""
    e = v.e
    for n, f in t.fidx.items():
        if n.startswith(('cattr.',)):
            leaf = n.split('.')[1]
            if leaf in ('fr', 'fg', 'fb') and codes[0] != 255 or leaf in ('br', 'bg', 'bb') and codes[1] != 255:
                continue            # looked up in the palette again
            if f[3] == 'bit':
                x, y = e.bits(s, t.load(s, f))[f[4]], e.bits(s, want[n])[f[4]]
                x, y = [s.bit(*q) if isinstance(q, tuple) else q for q in (x, y)]
                ok = x == y
            else:
                ok = t.same(s, t.load(s, f), want[n])
            c.ob('rendition restored', ok, '%s:%s' % (what, n), lambda: '%s: %s is not what it was when saved' % (what, n))
        elif n in ('gl', 'gr'):
            c.ob('shifts restored', t.same(s, t.load(s, f), want[n]), '%s:%s' % (what, n), lambda: '%s: %s does not select the set in force when saved' % (what, n.upper()))
        elif n == 'flags':
            pass
        elif n in ('glt', 'grt') or n.startswith(OWN) and what == 'new':
            pass
        else:
            c.ob('nothing else changes', t.same(s, t.load(s, f), before[n]), '%s:%s' % (what, n), lambda: '%s changes %s' % (what, n))
    now = v.get(s, 'flags')
    vals = [(want['flags'], 'AUTO_WRAP_MODE'), (want['flags'], 'ORIGIN_MODE'), (before['flags'], 'ORIGIN_MODE')]
    for s2, (aw, om, om1) in split_modes(t, s, vals):
        ga, go = bit(t, s2, now, 'AUTO_WRAP_MODE'), bit(t, s2, now, 'ORIGIN_MODE')
        c.ob('autowrap restored', ga == aw, what, lambda: '%s: autowrap was %s when saved, is %s' % (what, aw, ga))
        c.ob('origin mode restored', go == om, what, lambda: '%s: origin mode was %s when saved, is %s' % (what, om, go))
        x, y = e.bits(s2, now), e.bits(s2, before['flags'])
        own = [mod_flag(n).bit_length() - 1 for n in ('AUTO_WRAP_MODE', 'ORIGIN_MODE')]
        q = lambda b: s2.bit(*b) if isinstance(b, tuple) else b
        c.ob('nothing else changes', all(q(x[i]) == q(y[i]) for i in range(32) if i not in own), what + ':flags', lambda: '%s changes other modes' % what)
        acts = [a for a in t.acts(s2)][cur:]
        pos, rel, wrap, other = screen_moves(t, s2, acts, om1)
        c.ob('screen modes follow', rel == om and wrap == aw, what, lambda: '%s: the screen has autowrap %s and origin mode %s, saved were %s and %s' % (
            what, wrap, rel, aw, om))
        ok = pos is not None and t.eq(s2, pos[0], want['x']) and t.eq(s2, pos[1], want['y'])
        c.ob('position restored', ok, what, lambda: '%s: the cursor is not moved to the absolute position it had when saved (%s)' % (
            what, t.names(s2)))
        c.ob('no other operation', not other, what, lambda: '%s performs %s' % (what, other))


def round_trip(c, codes):
    mod = load.module('lib')
    w = World(mod)
    v, e, st = w.v, w.e, w.st
    t = Tab(v, c)
    v.cut_decoder(0x30, 0x7e)
    for a in ('cattr', 'saved_state.cattr'):
        for f, x in zip(('fccode', 'bccode'), codes):
            v.set(st, a + '.' + f, Int(8, lc(x)), 1)
    pin_flags(v, st, **{'8BIT_MODE': 0, '7BIT_MODE': 0, 'PREPEND_ESCAPE': 0, 'SEND_RECEIVE_MODE': 1})
    s0 = st.clone()
    want = {f[0]: t.load(s0, f) for f in t.fields}
    want['x'], want['y'] = v.getter('cursor_x'), v.getter('cursor_y')
    # the initial values are part of every later state
    st = s0
    what = 'ESC 7 ... ESC 8'
    n = 0
    cp = v.cp
    for s, r in run_esc(c, v, mod, st, ord('7')):
        for nme, f in t.fidx.items():
            if not nme.startswith(OWN):
                c.ob('saving changes nothing', t.same(s, t.load(s, f), want[nme]), 'ESC 7:' + nme, lambda: 'ESC 7 changes %s' % nme)
        c.ob('saving changes nothing', not t.acts(s), 'ESC 7', lambda: 'ESC 7 performs %s' % t.names(s))
        cur = len(t.acts(s))
        s = s.clone()
        # a second character: the decoder now delivers the 8
        v.cp = e.S.fresh(32, 'codepoint2', 0x30, 0x7e)
        arbitrary(v, t, s, codes)
        before = {f[0]: t.load(s, f) for f in t.fields}
        for s2, r2 in run_esc(c, v, mod, s, ord('8')):
            n += 1
            judge(c, v, t, s2, what, want, before, cur, codes)
        v.cp = cp
    c.count('round trips', n)
    c.ob('returns', n > 0, what, 'saving or restoring never returns')
    c.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef'))


def without_save(c, _):
    """ESC 8 on a new terminal"""
    from .c13 import made
    mod = load.module('lib')
    w, new = made(c, mod)
    e = w.e
    n = 0
    for s, o in new:
        v = w.v
        v.o, v.p = e.objs[o], Ptr(o)
        t = Tab(v, c)
        v.cut_decoder(0x38, 0x38)
        want = {f[0]: t.load(s, f) for f in t.fields}
        want['x'] = want['y'] = lc(0)
        s = s.clone()
        s.gh['epoch'] = s.gh.get('epoch', 0) + 1
        cur = len(t.acts(s))
        # colours come from the palette of the new terminal
        fc = s.const(want['cattr.fccode'].l)
        bc = s.const(want['cattr.bccode'].l)
        for s2, r in run_esc(c, v, mod, s, ord('8')):
            n += 1
            judge(c, v, t, s2, 'new', want, want, cur, (fc & 255, bc & 255))
    c.count('round trips', n)
    c.ob('returns', n > 0, 'new', 'restoring on a new terminal never returns')


def kept(c, S):
    """only saving and resetting change what is saved"""
    mod = load.module('lib')
    n = 0
    for st_, v, t, init, outs in sweep(c, mod, only=lambda x, a, b: x == S):
        own = [f for f in t.fields if f[0].startswith(OWN)]
        old = {f[0]: t.load(init, f) for f in own}
        for s, r in outs:
            n += 1
            diff = [f[0] for f in own if not t.same(s, t.load(s, f), old[f[0]])]
            if not diff:
                c.ob('kept', True, S, '')
                continue
            d = s.d(v.cp)
            esc = S == 'ESC' and all(a == b and chr(a) in '7c' for a, b in d)
            # soft reset and compatibility levels
            soft = S.startswith('CSI_') and all(a == b == ord('p') for a, b in d)
            c.ob('kept', esc or soft, '%s:%s' % (S, diff[0]), lambda: 'in state %s the character %s changes the saved %s' % (
                S, d, diff[0][len(OWN):]))
    c.count('inputs judged', n)


def check(Check_):
    c = Check('C40', 'proof', RULE)
    mod = load.module('lib')
    jobs = [('kept', S) for S in STATES]
    pairs = ((255, 255), (0, 255), (255, 0), (7, 3), (16, 17))
    if c.thorough:
        pairs = tuple((a, b) for a in (255, 0, 1, 7, 8, 15, 16, 17) for b in (255, 0, 1, 7, 8, 15, 16, 17))
    jobs += [('trip', p) for p in pairs] + [('new', None)]
    from .ops import pool
    pool(c, jobs, work)
    c.floor('round trips', c.cov.get('round trips', 0), 2 * len(pairs))
    c.floor('inputs judged', c.cov.get('inputs judged', 0), 300)
    c.assumptions.append('the mode bits of terminal and screen for origin mode agree before the restore (proved by C11)')
    c.sample('ESC 7, every other field arbitrary, ESC 8')
    return c.finish()


def work(r, j):
    {'kept': kept, 'trip': round_trip, 'new': without_save}[j[0]](r, j[1])

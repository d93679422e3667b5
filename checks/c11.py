"""C11: mode sequences change exactly the mode they name."""
from tsa import load
from .c32 import start, unchanged
from .inputs import *
from .modes import *
from .nest import api_calls

RULE = ('set and reset sequences are interpreted with arbitrary parameters in every list position; mode bits, saved values and screen '
        'calls on every abstract path are compared with the mode table; the mirrored screen flags are compared with the terminal '
        'modes at the end of every parser step and public call')

W = 32


def lists(thorough):
    """(parameter list with the arbitrary ones marked ANYV)"""
    yield [ANYV]
    yield [ANYV, ANYV]
    for k in (range(16) if thorough else (1, 2, 7, 14, 15)):
        for noop in (-1, 9999):
            l = [noop] * 16
            l[k] = ANYV
            yield l
    yield [4, ANYV, 7]
    yield [0, ANYV]


def check(Check):
    c = Check('C11', 'proof', RULE)
    mod = load.module('lib')
    paths = 0
    codes = set()
    for args in lists(c.thorough):
        for priv in (0, 1):
            for ch in (0x68, 0x6c):
                on = ch == 0x68
                v, t, st = start(c, mod, 'STATE_CSI_PARAM', ch, ch, args, 0x4 if priv else 0)
                init = t.initial()
                a = [v.get(st, 'csi_argv', 32, i) for i in range(len(args))]
                bits0 = t.e.bits(st, init['flags'])
                table = sorted((list(DEC) + list(ALT) + list(MOUSE)) if priv else ANSI)
                for s0, r in v.run_char(st):
                    for s1, inh in t.bit_split(s0, init['flags'], mod_flag('TITE_INHIBIT_MODE')):
                        todo = [(s1, [])]
                        for i, x in enumerate(args):
                            if x is not ANYV:
                                todo = [(s, l + [x]) for s, l in todo]
                                continue
                            todo = [(s2, l + [table[j] if j < len(table) else None]) for s, l in todo for s2, j in
                                    t.split(s, a[i], [[(k, k)] for k in table] + [None])]
                        for s2, l in todo:
                            # origin mode decides how positions are restored
                            need = any(x in (1048, 1049) for x in l)
                            for s3, q in (t.bit_split(s2, init['flags'], mod_flag('ORIGIN_MODE')) if need else [(s2, None)]):
                                paths += 1
                                judge(c, t, v, s3, l, priv, on, inh, init, q)
                                codes |= {(priv, x) for x in l if x is not None}
                c.fns |= set(v.e.fn_used)
    c.floor('mode codes', len(codes), 21)
    c.floor('abstract paths', paths, 2000)
    # keypad modes and the announcers
    n = 0
    for ch, fl, mode, val in ((0x3d, 0, 'KEYPAD_APPLICATION_MODE', 1), (0x3e, 0, 'KEYPAD_APPLICATION_MODE', 0),
                              (0x46, 0x10, 'USE_C1', 0), (0x47, 0x10, 'USE_C1', 1)):
        v, t, st = start(c, mod, 'STATE_ESC_INT' if fl else 'STATE_ESC', ch, ch, [], fl)
        init = t.initial()
        b0 = t.e.bits(st, init['flags'])
        for s, r in v.run_char(st):
            what = 'ESC %s%s' % (' ' if fl else '', chr(ch))
            got = list(t.e.bits(s, v.get(s, 'flags')))
            exp = norm(t, s, b0)
            exp[idx(mode)] = val
            c.ob('mode bits', got == exp, what, '%s does not change exactly mode %s' % (what, mode))
            c.ob('screen calls', not t.acts(s), what, lambda: '%s acts on the screen: %s' % (what, t.names(s)))
            unchanged(c, t, s, init, what, ('flags',))
            n += 1
    c.floor('other mode sequences', n, 4)
    # mirrored modes agree after every step
    m = [0]

    def mirror(t, s, init, what):
        b0 = t.e.bits(s, init)
        b1 = t.e.bits(s, t.v.get(s, 'flags'))
        for mode, flag, inv in MIRROR:
            i, f = idx(mode), scr(flag)
            x = b0[i]
            cur = ('not', x) if inv and not isinstance(x, int) else 1 - x if inv else x
            for a in t.acts(s):
                if a[0] != 'api':
                    continue
                if a[1] == 'tsm_screen_reset':
                    cur = 0
                elif a[1] in ('tsm_screen_set_flags', 'tsm_screen_reset_flags'):
                    fb = t.e.bits(s, a[2][0])[f.bit_length() - 1]
                    if fb == 1:
                        cur = int(a[1] == 'tsm_screen_set_flags')
                    elif fb != 0:
                        cur = None
            y = b1[i]
            want = ('not', y) if inv and not isinstance(y, int) else 1 - y if inv else y
            m[0] += 1
            c.ob('mirrored modes agree', cur == want, what + ':' + mode, '%s: terminal mode %s and screen flag %s disagree afterwards' % (
                what, mode, flag))

    for S, v, t, init, ends in sweep(c, mod, pins={'SEND_RECEIVE_MODE': 1}, argcs=(0, 1)):
        f0 = v.get(init.clone(), 'flags')
        for s, r in ends:
            mirror(t, s, f0, 'tsm_vte_input in state %s (character %s)' % (S, ','.join('%#x-%#x' % d for d in s.d(v.cp)[:2])))
    for fn, mk in api_calls(mod):
        v, t, st = terminal(c, mod, None, 0, 0)
        pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0)
        f0 = v.get(st, 'flags')
        for s, r in v.e.run(fn, [v.p] + mk(v.e, v), st):
            mirror(t, s, f0, fn)
    c.floor('mirror comparisons', m[0], 20000)
    return c.finish()


def norm(t, s, bits):
    return [b if not isinstance(b, tuple) else s.bit(*b) for b in bits]


def judge(c, t, v, s, l, priv, on, inh, init, rel):
    name = lambda x: 'other' if x is None else str(x)
    what = 'CSI %s%s %s' % ('? ' if priv else '', ';'.join(map(name, l if len(l) < 4 else [x for x in l if x not in (-1, 9999)])),
                            'h' if on else 'l')
    b0 = norm(t, s, t.e.bits(s, init['flags']))
    cur = (v.getter('cursor_x'), v.getter('cursor_y'))
    ef = Effect(b0, (t.e.norm_u(s, init['alt_cursor_x']), t.e.norm_u(s, init['alt_cursor_y'])))
    for x in l:
        if x is not None and x not in (-1, 9999):
            n = sum(1 for k in ef.calls if k[0] in ('tsm_screen_move_to',))
            ef.apply(priv, x, on, inh, (v.getter('cursor_x', n), v.getter('cursor_y', n)))
    got = norm(t, s, t.e.bits(s, v.get(s, 'flags')))
    bad = [i for i in range(W) if got[i] != ef.bits[i]]
    c.ob('mode bits', not bad, what, lambda: '%s: terminal modes %s are not as documented' % (what, ', '.join(hex(1 << i) for i in bad)))
    acts = [a for a in t.acts(s) if not (a[0] == 'cb' and a[1] == 'mouse_cb' and ef.mouse)]
    old = t.acts
    t.acts = lambda st: acts
    try:
        ok = t.match(s, ef.calls)
        c.ob('screen calls', ok, what, lambda: '%s performs [%s], documented: [%s]' % (
            what, t.names(s), '; '.join('%s' % (k[0],) for k in ef.calls) or 'nothing'))
    finally:
        t.acts = old
    ok = t.eq(s, t.load(s, t.fidx['alt_cursor_x']), ef.alt[0]) and t.eq(s, t.load(s, t.fidx['alt_cursor_y']), ef.alt[1])
    c.ob('saved cursor', ok, what, '%s: the saved cursor is not as documented' % what)
    unchanged(c, t, s, init, what, ('flags', 'alt_cursor_x', 'alt_cursor_y') + (('mouse_mode', 'mouse_event') if ef.mouse else ()))

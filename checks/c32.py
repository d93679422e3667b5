"""C32: every control character, escape sequence and control sequence performs its documented screen operation."""
from tsa import load
from tsa.vte import *
from .tab import *

RULE = ('from every dispatching parser state the final character is interpreted on abstract parameters; the sequence of screen '
        'calls with their argument values and the set of changed terminal settings are compared with the documented table on '
        'every abstract path')

POS = [(1, 1 << 32)]


def one(t, st, a):
    """default rule: missing or zero means one"""
    for s, i in t.split(st, a, [POS, None]):
        yield s, (t.e.norm_s(s, a) if i == 0 else lc(1))


def nargs(name, *extra):
    def spec(t, st, x):
        for s, n in one(t, st, x['a0']):
            yield s, [(name, [n] + list(extra))]
    return spec


def then_home(name):
    def spec(t, st, x):
        for s, n in one(t, st, x['a0']):
            yield s, [(name, [n, 0]), ('tsm_screen_move_line_home', [])]
    return spec


def choose(names, protect):
    def spec(t, st, x):
        for s, i in t.split(st, x['a0'], [[(-(1 << 31), 0)], [(1, 1)], [(2, 2)], None]):
            if i == 3:
                yield s, []
                continue
            for s2, q in t.bit_split(s, x['flags'], 0x4):
                yield s2, [(names[i], [int(q)] if protect else [])]
    return spec


def cup(t, st, x):
    for s, r in one(t, st, x['a0']):
        for s2, c in one(t, s, x['a1']):
            yield s2, [('tsm_screen_move_to', [laddk(c, -1), laddk(r, -1)])]


REL = 'TSM_SCREEN_REL_ORIGIN'


def origin(t, st, x):
    return t.bit_split(st, x['modes'], mod_flag('ORIGIN_MODE'))


def goto(t, x, y, rel):
    """absolute positioning: origin mode is suspended for it"""
    f = load.macro(REL)
    m = [('tsm_screen_move_to', [x, y])]
    return [('tsm_screen_reset_flags', [f])] + m + [('tsm_screen_set_flags', [f])] if rel else m


def cha(t, st, x):
    for s0, rel in origin(t, st, x):
        for s, n in one(t, s0, x['a0']):
            yield s, goto(t, laddk(n, -1), t.v.getter('cursor_y'), rel)


def vpa(t, st, x):
    for s, n in one(t, st, x['a0']):
        yield s, [('tsm_screen_move_to', [t.v.getter('cursor_x'), laddk(n, -1)])]


def vpr(t, st, x):
    for s0, rel in origin(t, st, x):
        for s, n in one(t, s0, x['a0']):
            yield s, [('tsm_screen_move_down', [n, 0])] if rel else [
                ('tsm_screen_move_to', [t.v.getter('cursor_x'), ladd(t.v.getter('cursor_y'), n)])]


def stbm(t, st, x):
    for s, i in t.split(st, x['a0'], [[(0, 1 << 32)], None]):
        u = t.e.norm_s(s, x['a0']) if i == 0 else lc(0)
        for s2, j in t.split(s, x['a1'], [[(0, 1 << 32)], None]):
            lo = t.e.norm_s(s2, x['a1']) if j == 0 else lc(0)
            yield s2, [('tsm_screen_set_margins', [u, lo])]


def tbc(t, st, x):
    for s, i in t.split(st, x['a0'], [[(-(1 << 31), 0)], [(3, 3)], None]):
        yield s, [[('tsm_screen_reset_tabstop', [])], [('tsm_screen_reset_all_tabstops', [])], []][i]


CSI = {
    'A': nargs('tsm_screen_move_up', 0), 'B': nargs('tsm_screen_move_down', 0), 'C': nargs('tsm_screen_move_right'),
    'D': nargs('tsm_screen_move_left'), 'E': then_home('tsm_screen_move_down'), 'F': then_home('tsm_screen_move_up'),
    'G': cha, 'H': cup, 'f': cup, 'd': vpa, 'e': vpr, 'r': stbm, 'g': tbc,
    'J': choose(['tsm_screen_erase_cursor_to_screen', 'tsm_screen_erase_screen_to_cursor', 'tsm_screen_erase_screen'], True),
    'K': choose(['tsm_screen_erase_cursor_to_end', 'tsm_screen_erase_home_to_cursor', 'tsm_screen_erase_current_line'], True),
    'X': nargs('tsm_screen_erase_chars'), 'L': nargs('tsm_screen_insert_lines'), 'M': nargs('tsm_screen_delete_lines'),
    '@': nargs('tsm_screen_insert_chars'), 'P': nargs('tsm_screen_delete_chars'), 'Z': nargs('tsm_screen_tab_left'),
    'I': nargs('tsm_screen_tab_right'), 'S': nargs('tsm_screen_scroll_up'), 'T': nargs('tsm_screen_scroll_down'),
}
ELSEWHERE = set('mhlpcn')       # attribute, mode, reset and report sequences: decided by C09 C11 C12 C13

ESCS = {'D': [('tsm_screen_move_down', [1, 1])], 'E': [('tsm_screen_newline', [])], 'H': [('tsm_screen_set_tabstop', [])],
        'M': [('tsm_screen_move_up', [1, 1])], '\\': []}
# terminal fields changed by escape sequences (field, kind, value)
ESCF = {'N': ('glt', 'g2'), 'O': ('glt', 'g3'), '~': ('gr', 'g1'), 'n': ('gl', 'g2'), '}': ('gr', 'g2'), 'o': ('gl', 'g3'),
        '|': ('gr', 'g3')}
ESC_ELSEWHERE = set('Zc78=>')
FINALS = set('B<0A4C5RQKYE6ZH7=FG')     # designations need an intermediate: decided by C22

EXEC = {0x08: [('tsm_screen_move_left', [1])], 0x09: [('tsm_screen_tab_right', [1])], 0x0d: [('tsm_screen_move_line_home', [])],
        0x84: [('tsm_screen_move_down', [1, 1])], 0x85: [('tsm_screen_newline', [])], 0x88: [('tsm_screen_set_tabstop', [])],
        0x8d: [('tsm_screen_move_up', [1, 1])]}
LF = {0x0a, 0x0b, 0x0c}


def unchanged(c, t, st, init, what, allow=()):
    for f in t.fields:
        if f[0] in allow or f[0].split('.')[0] in allow:
            continue
        ok = t.same(st, t.load(st, f), init[f[0]])
        c.ob('no other setting changes', ok, '%s:%s' % (what, f[0]), lambda: '%s changes %s' % (what, f[0]))


def start(c, mod, state, lo, hi, args=None, csi_flags=None, modes=()):
    v = Vte(mod)
    e = v.e
    e.split_idx = 20
    e.peel = e.unroll = 64
    e.maxstates = 10 ** 6
    t = Tab(v, c)
    v.cut_decoder(lo, hi)
    st = v.st
    v.setc(st, 'state', mod.enum(state))
    # character-set and echo modes are fixed (not what this property is about); everything else is arbitrary
    eight = mod_flag('8BIT_MODE') | mod_flag('7BIT_MODE') | mod_flag('PREPEND_ESCAPE')
    m = v.get(st, 'flags')
    b = [0 if (eight >> i) & 1 else x for i, x in enumerate(e.bits(st, m))]
    v.set(st, 'flags', e.from_bits(st, b, 32))
    v.setc(st, 'parse_cnt', 0, 64)
    if args is not None:
        n = len(args)
        v.setc(st, 'csi_argc', max(n - 1, 0))
        for i in range(16):
            if i < n and args[i] is ANYV:
                s = e.S.fresh(32, 'arg%d' % i)
                st.set_dom(s, ((0, 655359), (0xffffffff, 0xffffffff)))
                v.set(st, 'csi_argv', Int(32, ls(s)), 4, i)
            else:
                v.setc(st, 'csi_argv', -1 if i >= n else args[i], 32, i)
    if csi_flags is not None:
        v.setc(st, 'csi_flags', csi_flags)
    return v, t, st


def mod_flag(n):
    return load.macro('TSM_VTE_FLAG_' + n)


def by_char(t, sts):
    """split end states so that the character is a constant"""
    for s, r in sts:
        for a, b in s.d(t.v.cp):
            for k in range(a, b + 1):
                try:
                    s2 = s.clone()
                    s2.set_dom(t.v.cp, ((k, k),))
                except Infeasible:
                    continue
                yield s2, k


def check(Check):
    c = Check('C32', 'proof', RULE)
    mod = load.module('lib')
    nfin = nesc = nctl = paths = 0

    def compare(clause, t, s, want, what):
        ok = t.match(s, want)
        c.ob(clause, ok, what, lambda: '%s performs [%s], documented: [%s]' % (what, t.names(s), '; '.join(w[0] for w in want) or 'nothing'))

    # control sequences
    seen = set()
    for state, nargs_ in (('STATE_CSI_ENTRY', 0), ('STATE_CSI_PARAM', 1), ('STATE_CSI_PARAM', 2), ('STATE_CSI_PARAM', 3),
                          ('STATE_CSI_PARAM', 16), ('STATE_CSI_INT', 2)):
        for lo, hi in ((0x40, 0x67), (0x69, 0x6b), (0x6f, 0x6f), (0x71, 0x7e)):
            if lo <= 0x63 <= hi:
                ranges = [(0x40, 0x62), (0x64, hi)]
            else:
                ranges = [(lo, hi)]
            for a, b in ranges:
                v, t, st = start(c, mod, state, a, b, [ANYV] * nargs_)
                init = t.initial()
                x = {'a0': v.get(st, 'csi_argv', 32, 0), 'a1': v.get(st, 'csi_argv', 32, 1), 'flags': v.get(st, 'csi_flags'),
                     'modes': v.get(st, 'flags')}
                for s, k in by_char(t, v.run_char(st)):
                    ch = chr(k)
                    what = 'CSI %s' % ch
                    seen.add(ch)
                    spec = CSI.get(ch)
                    for s2, want in (spec(t, s, x) if spec else [(s, [])]):
                        paths += 1
                        compare('control sequences', t, s2, want, what)
                        if paths % 97 == 1:
                            c.sample('%s with %d parameter(s): %s' % (what, nargs_, t.names(s2)))
                    unchanged(c, t, s, init, what)
                c.fns |= set(v.e.fn_used)
    nfin = len(seen)
    # escape sequences
    seen = set()
    for lo, hi in ((0x30, 0x36), (0x39, 0x3c), (0x3f, 0x4f), (0x51, 0x57), (0x59, 0x59), (0x5c, 0x5c), (0x60, 0x62), (0x64, 0x7e)):
        v, t, st = start(c, mod, 'STATE_ESC', lo, hi, [], 0)
        init = t.initial()
        for s, k in by_char(t, v.run_char(st)):
            ch = chr(k)
            seen.add(ch)
            paths += 1
            what = 'ESC %s' % ch
            compare('escape sequences', t, s, ESCS.get(ch, []), what)
            f = ESCF.get(ch)
            unchanged(c, t, s, init, what, (f[0],) if f else ())
            if f:
                got = t.field(s, f[0])
                c.ob('shifts', isinstance(got, Ptr) and got.o == v.o.id and s.const(got.l) == v.off(f[1]), what,
                     '%s does not map %s into %s' % (what, f[1].upper(), f[0].upper()))
        c.fns |= set(v.e.fn_used)
    nesc = len(seen)
    # escape sequences with an intermediate character: no screen operation
    for lo, hi in ((0x30, 0x7e),):
        for fl in (0x1, 0x2, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800):
            v, t, st = start(c, mod, 'STATE_ESC_INT', lo, hi, [], fl)
            for s, r in v.run_char(st):
                paths += 1
                what = 'ESC with intermediate %#x' % fl
                c.ob('intermediates', not t.acts(s), what, lambda: '%s: %s' % (what, t.names(s)))
    # control characters, from the ground state and from inside a control sequence
    seen = set()
    lnm = mod_flag('LINE_FEED_NEW_LINE_MODE')
    for state in ('STATE_GROUND', 'STATE_CSI_PARAM', 'STATE_ESC'):
        for lo, hi in ((0x00, 0x04), (0x06, 0x17), (0x19, 0x19), (0x1c, 0x1f), (0x80, 0x8f), (0x91, 0x97), (0x99, 0x99), (0x9c, 0x9c)):
            v, t, st = start(c, mod, state, lo, hi, [])
            v.setc(st, 'osc_len', 0)
            init = t.initial()
            for s, k in by_char(t, v.run_char(st)):
                seen.add(k)
                what = 'control %#04x' % k
                allow = ()
                if k in LF:
                    for s2, q in t.bit_split(s, init['flags'], lnm):
                        paths += 1
                        compare('control characters', t, s2, [('tsm_screen_newline', [])] if q else
                                [('tsm_screen_move_down', [1, 1])], what)
                else:
                    paths += 1
                    compare('control characters', t, s, EXEC.get(k, []), what)
                f = {0x0e: ('gl', 'g1'), 0x0f: ('gl', 'g0'), 0x8e: ('glt', 'g2'), 0x8f: ('glt', 'g3')}.get(k)
                unchanged(c, t, s, init, what, (f[0],) if f else ())
                if f:
                    got = t.field(s, f[0])
                    c.ob('shifts', isinstance(got, Ptr) and got.o == v.o.id and s.const(got.l) == v.off(f[1]), what,
                         '%s does not map %s into %s' % (what, f[1].upper(), f[0].upper()))
            c.fns |= set(v.e.fn_used)
    nctl = len(seen)
    c.floor('control sequence finals', nfin, 57)
    c.floor('escape finals', nesc, 60)
    c.floor('control characters', nctl, 50)
    c.floor('abstract paths', paths, 800)
    c.cov['parameter_counts'] = [0, 1, 2, 3, 16]
    return c.finish()

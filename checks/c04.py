"""C04: the parser state table, for every state and every character."""
from tsa import load
from tsa.vte import *
from . import vtespec as V
from .tab import *
from .c32 import EXEC, LF, start, by_char, mod_flag

RULE = ('one character is interpreted from each of the fourteen parser states with all parameters arbitrary; successor state, '
        'action (screen calls, callbacks) and effect on the collected sequence are compared with the VT500 parser table for the '
        'whole code point range, partitioned exactly')

ARGS = 16


def prep(c, mod, state, ranges, argc=None):
    v, t, st = start(c, mod, 'STATE_' + state, 0, 0x10ffff)
    st.set_dom(v.cp, inorm([r for r in ranges]))
    for f in ('fccode', 'bccode'):              # colour lookup is C23's subject
        for a in ('cattr', 'def_attr', 'saved_state.cattr'):
            v.set(st, a + '.' + f, Int(8, lc(255)), 1)
    n = v.get(st, 'csi_argc')
    st.set_dom(t.e.as_sym(st, n.l, 32), ((0, ARGS),)) if argc is None else v.setc(st, 'csi_argc', argc)
    if argc is None:
        s = v.get(st, 'csi_argc').l[1][0][0]
        st.set_dom(s, ((0, ARGS),))
    o = v.get(st, 'osc_len')
    st.set_dom(o.l[1][0][0], ((0, 127),))
    for i in range(ARGS):
        a = v.get(st, 'csi_argv', 32, i)
        st.set_dom(a.l[1][0][0], ((0, 655359), (0xffffffff, 0xffffffff)))
    return v, t, st


def scratch(v, st):
    d = {'csi_argc': v.get(st, 'csi_argc'), 'csi_flags': v.get(st, 'csi_flags'), 'osc_len': v.get(st, 'osc_len')}
    for i in range(ARGS):
        d['csi_argv[%d]' % i] = v.get(st, 'csi_argv', 32, i)
    return d


def check(Check):
    c = Check('C04', 'proof', RULE)
    mod = load.module('lib')
    names = [n for n in V.TABLE]
    enum = {n: mod.enum('STATE_' + n) for n in names}
    rows = paths = 0

    def succ(t, s, want, what):
        got = t.v.get(s, 'state')
        k = s.const(got.l)
        nm = {x: n for n, x in enum.items()}
        c.ob('successor state', k == enum[want], what, lambda: '%s leads to %s, specified: %s' % (what, nm.get(k, k), want))

    for S in names:
        for anyrow in [(r, nxt, act) for r, nxt, act in V.ANY] + list(V.TABLE[S]):
            ranges, nxt, act = anyrow
            glob = anyrow in [(r, n, a) for r, n, a in V.ANY]
            if nxt == 'any':
                continue
            rows += 1
            for argc in (range(ARGS + 1) if act == 'param' else [None]):
                v, t, st = prep(c, mod, S, ranges, argc)
                if act in ('csi', 'esc'):
                    v.setc(st, 'csi_argc', 0)
                    for i in range(ARGS):
                        v.setc(st, 'csi_argv', -1, 32, i)
                    v.setc(st, 'csi_flags', 0x10 if S == 'ESC_INT' else 0)
                if act == 'osc':
                    pass
                init = scratch(v, st)
                osc_len0 = init['osc_len']
                ends = v.run_char(st)
                if not ends:
                    raise ir.IRError('no path for state %s' % S)
                it = by_char(t, ends) if act in ('execute', 'param', 'collect') else \
                    ((s, None) for s, r in ends)
                for s, k in it:
                    paths += 1
                    what = 'state %s, %s' % (S, 'character %#04x' % k if k is not None else
                                             'characters ' + ','.join('%#x-%#x' % (a, b) if a != b else '%#x' % a
                                                                      for a, b in s.d(v.cp)[:4]))
                    succ(t, s, nxt or S, what)
                    leaving = S == 'OSC_STRING' and nxt is not None
                    acts = [x for x in s.events() if x[0] in ('api', 'cb')]
                    if leaving:
                        inst = t.e.resolve(s, t.e.load(s, Ptr(v.o.id, lc(v.off('osc_cb'))), ('p',), None))
                        fired = [x for x in acts if x[0] == 'cb' and x[1] == 'osc_cb']
                        if inst is NULL:
                            c.ob('string callback', not fired, what, '%s: callback called although none is installed' % what)
                        else:
                            ok = len(fired) == 1 and t.eq(s, fired[0][2][2], osc_len0)
                            p = t.e.resolve(s, fired[0][2][1]) if fired else None
                            ok = ok and isinstance(p, Ptr) and p.o == v.o.id and s.const(p.l) == v.off('osc_arg')
                            c.ob('string callback', ok, what, lambda: '%s: the collected string is not reported exactly once, '
                                 'complete and with its length (%s)' % (what, t.names(s)))
                        acts = [x for x in acts if not (x[0] == 'cb' and x[1] == 'osc_cb')]
                    elif any(x[0] == 'cb' and x[1] == 'osc_cb' for x in acts):
                        c.ob('string callback', False, what, '%s: string callback without a finished string' % what)
                    nm = lambda: '; '.join(t.name(s, (x[0], x[1], x[2], x[4])) for x in acts) or 'nothing'
                    if act == 'execute':
                        want = expected_exec(t, s, k)
                        for s2, w in want:
                            c.ob('action: execute', matches(t, s2, acts, w), what, lambda: '%s executes [%s], specified: [%s]' %
                                 (what, nm(), '; '.join(str(x[0]) for x in w) or 'nothing'))
                    elif act == 'print':
                        ok = len(acts) == 1 and acts[0][0] == 'api' and acts[0][1] == 'tsm_screen_write'
                        c.ob('action: print', ok, what, lambda: '%s must print exactly one character, performs [%s]' % (what, nm()))
                    elif act == 'esc':
                        pass        # C22, C32 decide what a complete escape sequence does
                    elif act == 'csi':
                        pass
                    else:
                        c.ob('action: no output', not acts, what, lambda: '%s must not act on the screen, performs [%s]' % (what, nm()))
                    # the collected sequence
                    now = scratch(v, s)
                    if act == 'clear':
                        c.ob('fresh sequence', t.eq(s, now['csi_argc'], 0) and t.eq(s, now['csi_flags'], 0), what,
                             '%s: old parameters or markers survive' % what)
                        c.ob('fresh sequence', all(t.eq(s, now['csi_argv[%d]' % i], -1) for i in range(ARGS)), what,
                             '%s: an old parameter value survives' % what)
                        if nxt == 'OSC_STRING':
                            c.ob('fresh sequence', t.eq(s, now['osc_len'], 0), what, '%s: old string text survives' % what)
                    elif act == 'param':
                        arg = 'csi_argv[%d]' % argc
                        if k == 0x3b:
                            c.ob('parameters', t.eq(s, now['csi_argc'], min(argc + 1, ARGS)), what,
                                 '%s: ";" does not start the next parameter (count %d)' % (what, argc))
                            same_but(c, t, s, init, now, what, ('csi_argc',))
                        elif argc >= ARGS:
                            same_but(c, t, s, init, now, what, ())
                        else:
                            a = init[arg]
                            for s2, i in t.split(s, a, [[(-(1 << 31), 0)], [(1, 0xffff)], None]):
                                old = t.e.norm_s(s2, a)
                                new = [lc(k - 48), laddk(lscale(old, 10), k - 48), old][i]
                                got = t.e.norm_s(s2, now[arg])
                                eq = s2.prove(lsub(got, new)) and s2.prove(lsub(new, got))
                                big = s2.prove(laddk(got, -0x10000)) and s2.prove(laddk(new, -0x10000))
                                c.ob('parameters', eq or big, what, '%s: digit %d gives a wrong value of parameter %d' % (what, k - 48, argc))
                            same_but(c, t, s, init, now, what, (arg,))
                    elif act == 'collect':
                        b = V.COLLECT.get(k, 0)
                        old = t.e.bits(s, init['csi_flags'])
                        new = t.e.bits(s, now['csi_flags'])
                        exp = [1 if (b >> i) & 1 else x for i, x in enumerate(old)]
                        if k in V.COLLECT:
                            c.ob('intermediates', new == exp, what, '%s: marker not recorded as specified' % what)
                        else:
                            # recorded as unknown, never as one of the known markers
                            ok = new[:11] == old[:11] and any(x == 1 for x in new[11:])
                            c.ob('intermediates', ok, what, '%s: unknown marker is forgotten or taken for a known one' % what)
                        same_but(c, t, s, init, now, what, ('csi_flags',))
                    elif nxt is None and act in ('execute', 'ignore', 'none') and S not in ('GROUND', 'CSI_IGNORE', 'DCS_IGNORE', 'ST_IGNORE', 'DCS_PASS'):
                        same_but(c, t, s, init, now, what, ())
                    elif act == 'osc':
                        osc(c, t, s, v, init, now, what)
                    if paths % 61 == 1:
                        c.sample('%s -> %s [%s]' % (what, nxt or S, nm()))
                c.engine(v.e, ('bounds', 'null', 'uninit'), 'safety: ')
                c.fns |= set(v.e.fn_used)
    c.floor('table rows', rows, 140)
    c.floor('abstract paths', paths, 2000)
    c.cov['parser_states'] = len(names)
    return c.finish()


def same_but(c, t, s, init, now, what, allow):
    for n in init:
        if n not in allow:
            c.ob('sequence undisturbed', t.same(s, now[n], init[n]), what + ':' + n, '%s disturbs %s of the sequence being collected' % (what, n))


def osc(c, t, s, v, init, now, what):
    """text is appended in UTF-8 or, when it does not fit, dropped as a whole"""
    a = t.e.norm_u(s, init['osc_len'])
    b = t.e.norm_u(s, now['osc_len'])
    d = lsub(b, a)
    ok = s.prove(d) and s.prove(laddk(lscale(d, -1), 4)) and s.prove(laddk(lscale(b, -1), 127))
    c.ob('string collection', ok, what, '%s: the string grows by more than one character or beyond its storage' % what)


def expected_exec(t, s, k):
    if k in LF:
        m = t.load(t.v.st.clone(), t.fidx['flags'])
        return [(s2, [('tsm_screen_newline', [])] if q else [('tsm_screen_move_down', [1, 1])])
                for s2, q in t.bit_split(s, m, mod_flag('LINE_FEED_NEW_LINE_MODE'))]
    if k == 0x05:
        return [(s, [('write', b'\x06')])]
    if k == 0x9a:
        return [(s, [('write', V.DA1)])]
    if k == 0x1a:
        return [(s, [('tsm_screen_write', [0xbf, ANYV])])]
    return [(s, EXEC.get(k, []))]


def matches(t, st, acts, want):
    acts = [(x[0], x[1], x[2], x[4]) for x in acts]
    old = t.acts
    t.acts = lambda s: acts
    try:
        return t.match(st, want)
    finally:
        t.acts = old

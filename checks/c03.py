"""C03: the terminal parser stays inside its own memory for every byte stream."""
from tsa import load
from .inputs import *
from .modes import *
from .ops import pool
from .common import Check as _C

RULE = ('one input step of the terminal is interpreted from every parser state with every class of character, arbitrary parameters, '
        'command text, colours, character sets and modes; on every path each memory access is inside its object, pointers are present and '
        'values initialised, and the facts this relies on (parameter count, text length, character set and palette pointers, parser state) '
        'hold again afterwards, so they hold for every stream of bytes split in any way')
KINDS = ('null', 'uaf', 'bounds', 'vla', 'uninit', 'undef', 'free', 'abort', 'format', 'div', 'shift')


def jobs(thorough):
    out = []
    for S in STATES:
        for lo, hi in CLASSES:
            if S in ('CSI_ENTRY', 'CSI_PARAM', 'CSI_INT') and lo == 0x40:
                for a, b in FINALS:
                    if a == 0x6d:
                        # attributes: arbitrary parameters at every distance from the end of the list
                        if S != 'CSI_PARAM':
                            out.append((S, a, b, [None], None))
                            continue
                        for k in range(16):
                            for post in ([], [5], [5, 300], [2], [2, 7], [2, 7, 255], [2, 7, 255, 300], [0] * 15):
                                if k in (0, 1, 7) or k > 10:
                                    out.append((S, a, b, ([0] * k + [None] + post)[:16], None))
                        if 1:
                            for p in ([38], [48], [38, 5], [48, 5], [38, 2, 1], [48, 2, 1, 2], [38, 2], [0] * 12 + [38, 2], [0] * 13 + [48, 2],
                                      [0] * 14 + [38], [0] * 13 + [38, 5], [0] * 11 + [48, 2], [0] * 12 + [38], [48] * 15):
                                out.append((S, a, b, (p + [None])[:16], None))
                    elif a == 0x68 or a == 0x6c:
                        for p in ([], [0] * 14, [0] * 15, [4, 7]):
                            out.append((S, a, b, p + [None], None))
                    else:
                        for k in (0, 1, 2) if S != 'CSI_ENTRY' else (0,):
                            out.append((S, a, b, [None] * k, None))
                        out.append((S, a, b, [None] * 16, None))
            else:
                out.append((S, lo, hi, None, None))
            for m in ('8BIT_MODE', '7BIT_MODE'):
                if lo < 0x100:
                    out.append((S, lo, min(hi, 255), [], m))
    return out


def step(r, job, prep=None):
    """one input step; with prep only that preparation's own observations and missing pointers are reported"""
    S, lo, hi, args, mode = job
    mod = load.module('lib')
    v, t, st = terminal(r, mod, S, lo, hi, argc=None if args is None else len(args), cut=mode is None)
    e = v.e
    for i, a in enumerate(args or ()):
        if a is not None:
            v.setc(st, 'csi_argv', a, 32, i)
    if args:
        # the collected count may lag one behind the last parameter
        n = v.e.S.fresh(32, 'argc', max(len(args) - 1, 0), min(len(args), 16))
        v.set(st, 'csi_argc', Int(32, ls(n)), 4)
    for a in ('cattr', 'def_attr', 'saved_state.cattr'):
        for f in ('fccode', 'bccode'):
            v.set(st, a + '.' + f, Int(8, ls(e.S.fresh(8, a + f))), 1)
    pins = {'8BIT_MODE': 0, '7BIT_MODE': 0}
    if mode:
        pins[mode] = 1
    pin_flags(v, st, PREPEND_ESCAPE=0, SEND_RECEIVE_MODE=1, **pins)
    size = mod.member('tsm_vte', 'osc_arg')['size']
    x = e.S.fresh(32, 'osc_len', 0, size - 1)
    v.set(st, 'osc_len', Int(32, ls(x)), 4)
    if prep:
        prep(r, v, st)
    if mode:
        b = e.newobj('input', 'arg', lc(1), ('a', 1, ('i', 8)), 'lazy')
        y = e.S.fresh(8, 'byte')
        # byte values of the class, as stored and with the ignored top bit
        dom = [(lo, hi)] if mode == '8BIT_MODE' else [(lo & 127, min(hi, 127))] if lo < 128 else [(lo, hi)]
        st.set_dom(y, tuple(dom))
        e.store_const(st, b, 0, Int(8, ls(y)), 1)
        outs = e.run('tsm_vte_input', [v.p, Ptr(b.id), Int(64, lc(1))], st)
    else:
        outs = v.run_char(st)
    what = 'state %s, character %#x-%#x%s' % (S, lo, hi, ', ' + mode if mode else '')
    if prep:
        r.engine(e, ('null',))
        return
    r.engine(e, KINDS)
    r.count('steps')
    r.count('end states', len(outs))
    r.ob('returns', bool(outs), what, lambda: 'tsm_vte_input() never returns in ' + what)
    for s, _ in outs:
        invariant(r, v, t, s, what, size)


def invariant(r, v, t, s, what, size):
    e, mod = v.e, v.m

    def below(name, hi):
        x = v.get(s, name)
        ok = isinstance(x, Int)
        if ok:
            try:
                u = e.norm_u(s, x)
                ok = s.prove(lsub(lc(hi), u)) and s.prove(u)
            except Split:
                ok = False
        r.ob('counts stay in range', ok, '%s:%s' % (what, name), lambda: '%s: %s may exceed %d afterwards' % (what, name, hi))
    below('csi_argc', ARGS)
    below('osc_len', size - 1)
    below('state', mod.enum('STATE_NUM') - 1)
    g0 = v.off('g0')
    for n in GL + ('saved_state.gl', 'saved_state.gr'):
        p = v.getp(s, n)
        if isinstance(p, PSym):
            p = e.resolve(s, p)
        ok = p == NULL and n in ('glt', 'grt') or isinstance(p, PSym)
        if isinstance(p, Ptr) and p.o == v.o.id:
            l = p.l
            k = s.const(l)
            ok = k in (g0, g0 + 8, g0 + 16, g0 + 24) if k is not None else s.prove(laddk(l, -g0)) and s.prove(laddk(lscale(l, -1), g0 + 24))
        r.ob('selected sets exist', ok, '%s:%s' % (what, n), lambda: '%s: %s points to no character set afterwards (%s)' % (what, n, p))
    for n in GS:
        p = v.getp(s, n)
        ok = isinstance(p, PSym)
        if isinstance(p, Ptr):
            o = e.objs[p.o]
            ok = s.const(p.l) == 0 and o.size is not None and (s.const(o.size) or 0) >= 96 * 4
        r.ob('selected sets exist', ok, '%s:%s' % (what, n), lambda: '%s: %s points to no table of 96 entries afterwards' % (what, n))
    a, b = v.getp(s, 'palette'), v.getp(v.st.clone(), 'palette')
    r.ob('palette stays', a == b or t.same(s, a, b), what, lambda: '%s: the palette is replaced' % what)


def decoder(c, mod):
    for fn, k in (('tsm_utf8_mach_feed', 1), ('tsm_utf8_mach_get', 0), ('tsm_utf8_mach_reset', 0)):
        v = Vte(mod)
        e = v.e
        args = [Ptr(v.mach.id)] + [Int(8, ls(e.S.fresh(8, 'byte')))] * k
        outs = e.run(fn, args, v.st)
        c.ob('returns', bool(outs), fn, fn + '() never returns')
        c.engine(e, KINDS)
        c.fns |= set(e.fn_used)


def buffers(c, mod):
    """the input loop reads exactly the bytes given"""
    for n in range(0, 6):
        v, t, st = terminal(c, mod, 'GROUND', 0x40, 0x60, argc=0)
        pin_flags(v, st, PREPEND_ESCAPE=0, SEND_RECEIVE_MODE=1, **{'8BIT_MODE': 0, '7BIT_MODE': 0})
        e = v.e
        e.stubs['tsm_utf8_mach_feed'] = lambda e, st, x, a: (st.ev(('fed', a[1])), [(st, Int(x.ty[1], lc(0)))])[1]
        b = e.newobj('input', 'arg', lc(n), ('a', n, ('i', 8)), 'lazy')
        outs = e.run('tsm_vte_input', [v.p, Ptr(b.id), Int(64, lc(n))], st)
        c.engine(e, KINDS)
        for s, _ in outs:
            fed = [x[1] for x in s.events() if x[0] == 'fed']
            want = [e.load_const(s, b, i, ('i', 8), 1, None) for i in range(n)]
            if fed is not None:
                ok = len(fed) == n and all(t.eq(s, x, y) for x, y in zip(fed, want))
                c.ob('every byte parsed once', ok, 'tsm_vte_input', 'tsm_vte_input() with %d bytes parses %d' % (n, len(fed)))
        c.ob('returns', bool(outs), 'tsm_vte_input', 'tsm_vte_input() never returns')


def check(Check):
    c = Check('C03', 'proof', RULE)
    mod = load.module('lib')
    j = jobs(c.thorough)
    pool(c, j, step)
    c.floor('steps', c.cov.get('steps', 0), len(j))
    decoder(c, mod)
    buffers(c, mod)
    c.sample('state %s, characters %#x-%#x, parameters %s, mode %s' % j[len(j) // 3])
    return c.finish()

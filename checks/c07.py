"""C07: replies and typed text are routed by balanced parse-nesting bookkeeping."""
from tsa import load
from .c10 import explore, output, show as shown
from .inputs import *
from .nest import *

RULE = ('parse nesting is proved unchanged by every public call and every parser step; during parsing no output re-enters the parser; '
        'outside parsing the keyboard handler feeds exactly its output bytes back to the parser when local echo is on and nothing '
        'otherwise, on every abstract path')


def check(Check):
    c = Check('C07', 'proof', RULE)
    mod = load.module('lib')
    paths = 0

    def balanced(t, s, before, what):
        c.ob('nesting balanced', t.eq(s, t.v.get(s, 'parse_cnt', 64), before), what, '%s leaves the parse nesting changed' % what)

    # keyboard input, not parsing / parsing, echo on / off
    for cnt, srm in ((0, 0), (0, 1), (None, 0)):
        box = {}

        def prep(v, t, st):
            stub_nested(v, t)
            if cnt == 0:
                v.setc(st, 'parse_cnt', 0, 64)
            else:
                x = v.e.S.fresh(64, 'nesting', 1, 1 << 40)
                v.set(st, 'parse_cnt', Int(64, ls(x)), 8)
            pin_flags(v, st, SEND_RECEIVE_MODE=srm)
            box['cnt'] = v.get(st, 'parse_cnt', 64)

        def vd(t, st, ret, args, want, what):
            got = output(t, st)
            ns = nested(st)
            balanced(t, st, box['cnt'], 'tsm_vte_handle_keyboard')
            if cnt == 0 and srm == 0:
                fed = []
                for x in ns:
                    fed += list(x[2]) if x[2] is not None else [None]
                ok = got is not None and len(fed) == len(got) and all(same(t, st, a, b) for a, b in zip(fed, got))
                c.ob('local echo', ok, what, lambda: '%s: local echo parses %s, sent is %s' % (what, shown(
                    [x if x is not None else 0x3f for x in fed]), shown(got)))
            else:
                c.ob('no echo', not ns, what, '%s: text is echoed although %s' % (what, 'the terminal is parsing' if cnt is None else
                                                                                  'local echo is off'))
        keys, n, engines = explore(c, mod, vd, True, prep)
        paths += n
        for e in engines:
            c.fns |= set(e.fn_used)
    calls = 0
    for fn, mk in api_calls(mod):
        v, t, st = terminal(c, mod, None, 0, 0)
        pin_flags(v, st, PREPEND_ESCAPE=0)
        stub_nested(v, t)
        before = v.get(st, 'parse_cnt', 64)
        for s, r in v.e.run(fn, [v.p] + mk(v.e, v), st):
            balanced(t, s, before, fn)
            calls += 1
        c.fns |= set(v.e.fn_used)
    steps = 0
    for S, v, t, init, ends in sweep(c, mod, argcs=(0, 1), prep=lambda v, t, st: stub_nested(v, t)):
        before = v.get(init.clone(), 'parse_cnt', 64)
        for s, r in ends:
            steps += 1
            balanced(t, s, before, 'tsm_vte_input in state %s' % S)
            c.ob('replies are not parsed', not nested(s), S, 'an answer generated in state %s is fed back into the parser' % S)
    # an empty input and a missing screen
    for n in (0, 1):
        v, t, st = terminal(c, mod, None, 0, 0x10ffff)
        before = v.get(st, 'parse_cnt', 64)
        stub_nested(v, t)
        v.e.stubs['tsm_utf8_mach_feed'] = lambda e, st, x, a: [(st, e.fresh(32, 'state'))]
        if n:
            v.set(st, 'state', Int(32, lc(mod.enum('STATE_GROUND'))))
            pin_flags(v, st, **{'7BIT_MODE': 1})
        for s, r in v.run_char(st, n):
            balanced(t, s, before, 'tsm_vte_input')
            steps += 1
    c.floor('keyboard paths', paths, 800)
    c.floor('public calls', calls, 10)
    c.floor('parser steps', steps, 3000)
    return c.finish()


def same(t, st, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Int):
        return t.eq(st, a, b)
    if isinstance(b, Int):
        return t.eq(st, b, a)
    return False

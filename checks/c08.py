"""C08: the Alt/Meta escape prefix applies to exactly one key press."""
from tsa import load
from .c10 import explore, mask, output, show as shown
from .inputs import *
from .nest import *

RULE = ('the prefix request is proved clear at the end of every public call entered with it clear, at every nested parser call and '
        'after every parser step; on every path of the keyboard handler the output starts with exactly one extra ESC when Alt is '
        'held and with none otherwise, with and without local echo')


def check(Check):
    c = Check('C08', 'proof', RULE)
    mod = load.module('lib')
    paths = 0

    def clear(t, s, what):
        c.ob('prefix cleared', bit_of(t, s, 'PREPEND_ESCAPE') == 0, what, '%s can leave the escape prefix pending for later output' % what)

    def vd(t, st, ret, args, want, what):
        for s, alt in t.bit_split(st, args[2], mask('alt')):
            got = output(t, s)
            if got is None:
                c.ob('one prefix', False, what, '%s: malformed output' % what)
                continue
            n = 0
            while n < len(got) and got[n] == 0x1b:
                n += 1
            m = 0
            while want is not None and m < len(want) and want[m] == 0x1b:
                m += 1
            if got:
                c.ob('one prefix', n == m + int(alt), what, lambda: '%s%s sends %s: %d leading ESC instead of %d' % (
                    'Alt+' if alt else '', what, shown(got), n, m + int(alt)))
            clear(t, s, 'tsm_vte_handle_keyboard (%s)' % what)
            for x in nested(s):
                c.ob('prefix cleared', x[4] == 0, what + ' echo', '%s: replies to the local echo would get the escape prefix' % what)
            c.cov['nested calls checked'] = c.cov.get('nested calls checked', 0) + len(nested(s))

    for echo in (False, True):
        keys, n, engines = explore(c, mod, vd, echo, prep=lambda v, t, st: stub_nested(v, t))
        paths += n
        for e in engines:
            c.fns |= set(e.fn_used)
    # all other public calls
    calls = 0
    for fn, mk in api_calls(mod):
        v, t, st = terminal(c, mod, None, 0, 0)
        pin_flags(v, st, PREPEND_ESCAPE=0)
        stub_nested(v, t)
        for s, r in v.e.run(fn, [v.p] + mk(v.e, v), st):
            clear(t, s, fn)
            calls += 1
            paths += 1
        c.fns |= set(v.e.fn_used)
    # one character from every parser state
    steps = 0
    for S, v, t, init, ends in sweep(c, mod, argcs=(0, 1), prep=lambda v, t, st: stub_nested(v, t)):
        for s, r in ends:
            steps += 1
            clear(t, s, 'tsm_vte_input in state %s' % S)
            for x in nested(s):
                c.ob('prefix cleared', x[4] == 0, S, 'nested parsing with the prefix pending')
    c.floor('keyboard paths', paths, 800)
    c.floor('public calls', calls, 10)
    c.floor('parser steps', steps, 3000)
    return c.finish()

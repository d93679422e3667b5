"""One input character from every parser state, partitioned so that every class of character and every kind of
sequence is interpreted with arbitrary parameters."""
from tsa.vte import *
from .tab import *
from .c32 import mod_flag

STATES = ['GROUND', 'ESC', 'ESC_INT', 'CSI_ENTRY', 'CSI_PARAM', 'CSI_INT', 'CSI_IGNORE', 'DCS_ENTRY', 'DCS_PARAM', 'DCS_INT',
          'DCS_PASS', 'DCS_IGNORE', 'OSC_STRING', 'ST_IGNORE']
ARGS = 16
CLASSES = [(0, 0x17), (0x18, 0x1b), (0x1c, 0x1f), (0x20, 0x2f), (0x30, 0x3f), (0x40, 0x7e), (0x7f, 0x8f), (0x90, 0x9f), (0xa0, 0x10ffff)]
FINALS = [(0x40, 0x4f), (0x50, 0x62), (0x63, 0x67), (0x68, 0x68), (0x69, 0x6b), (0x6c, 0x6c), (0x6d, 0x6d), (0x6e, 0x71), (0x72, 0x7e)]


def terminal(c, mod, state, lo, hi, echo_free=True, argc=None, split_idx=20, cut=True, eng=None):
    """a terminal with arbitrary content in one parser state"""
    v = Vte(mod, eng)
    e = v.e
    e.split_idx = split_idx
    e.peel = e.unroll = 64
    e.maxstates = 10 ** 6
    t = Tab(v, c)
    if cut:
        v.cut_decoder(lo, hi)
    st = v.st
    if state is not None:
        v.setc(st, 'state', mod.enum('STATE_' + state))
    # C04 proves these facts about collected markers
    if state == 'ESC':
        v.setc(st, 'csi_flags', 0)
    elif state == 'ESC_INT':
        st.set_dom(v.get(st, 'csi_flags').l[1][0][0], ((1, 0xfff),))
    for f in ('fccode', 'bccode'):              # colour lookup is C23's subject
        for a in ('cattr', 'def_attr', 'saved_state.cattr'):
            v.set(st, a + '.' + f, Int(8, lc(255)), 1)
    if argc is None:
        s = v.get(st, 'csi_argc').l[1][0][0]
        st.set_dom(s, ((0, ARGS),))
    else:
        v.setc(st, 'csi_argc', max(argc - 1, 0))
    st.set_dom(v.get(st, 'osc_len').l[1][0][0], ((0, 127),))
    for i in range(ARGS):
        if argc is not None and i >= argc:
            v.setc(st, 'csi_argv', -1, 32, i)
            continue
        a = v.get(st, 'csi_argv', 32, i)
        st.set_dom(a.l[1][0][0], ((0, 655359), (0xffffffff, 0xffffffff)))
    s = v.get(st, 'parse_cnt', 64).l[1][0][0]
    st.set_dom(s, ((0, 1 << 40),))
    return v, t, st


def pin_flags(v, st, **kw):
    """fix terminal mode bits: NAME=0/1"""
    e = v.e
    b = list(e.bits(st, v.get(st, 'flags')))
    for n, x in kw.items():
        m = mod_flag(n)
        b[m.bit_length() - 1] = x
    v.set(st, 'flags', e.from_bits(st, b, 32))


def sweep(c, mod, pins=None, argcs=(0, 1, 2), only=None, prep=None):
    """yields (state name, v, t, initial state values, [(end state, ret)])"""
    pins = dict({'8BIT_MODE': 0, '7BIT_MODE': 0, 'PREPEND_ESCAPE': 0}, **(pins or {}))
    for S in STATES:
        for lo, hi in CLASSES:
            if S in ('CSI_ENTRY', 'CSI_PARAM', 'CSI_INT') and lo == 0x40:
                todo = [(a, b, n) for a, b in FINALS 
                        for n in ((0,) if S == 'CSI_ENTRY' else [n for n in argcs if n and (a != 0x6d or n == 1)])]
            else:
                todo = [(lo, hi, None)]
            for a, b, n in todo:
                if only and not only(S, a, b):
                    continue
                v, t, st = terminal(c, mod, S, a, b, argc=n)
                pin_flags(v, st, **pins)
                if prep:
                    prep(v, t, st)
                v.st = st
                init = st.clone()
                yield S, v, t, init, v.run_char(st)
                c.fns |= set(v.e.fn_used)

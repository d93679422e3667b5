"""Shared part of C07 and C08: calls of the parser from inside the terminal (local echo) as events, and the list of
public calls that work on an existing terminal."""
from tsa import load
from tsa.vte import *
from .tab import *
from .c32 import mod_flag

NESTED = 'tsm_vte_input'


def stub_nested(v, t):
    """record nested parser calls; afterwards every setting is arbitrary except what the induction hypothesis fixes"""
    e = v.e
    pe = mod_flag('PREPEND_ESCAPE').bit_length() - 1

    def stub(e, st, x, a):
        fl = e.bits(st, v.get(st, 'flags'))
        st.ev(('nest', a[0], e.snapshot(st, a[1], a[2]), x, fl[pe], v.get(st, 'parse_cnt', 64)))
        for n, off, size, kind, bit in t.fields:
            if kind == 'int' and size in (1, 2, 4, 8) and n not in ('parse_cnt',):
                if n == 'flags' or e.m.member('tsm_vte', n)['di'].get('name') == '_Bool':
                    continue
                e.store_const(st, v.o, off, e.fresh(size * 8, n + "'"), size)
        b = [('f', 0)] * 32
        s = e.S.fresh(32, "flags'")
        b = list(e.bits(st, Int(32, ls(s))))
        b[pe] = 0
        v.set(st, 'flags', e.from_bits(st, b, 32))
        return [(st, UNDEF)]
    e.stubs[NESTED] = stub


def nested(st):
    return [x for x in st.events() if x[0] == 'nest']


def bit_of(t, st, name):
    i = mod_flag(name).bit_length() - 1
    b = t.e.bits(st, t.v.get(st, 'flags'))[i]
    return b


def api_calls(mod):
    """[(function, argument builder)] for public calls on a terminal other than input and keyboard"""
    def ints(*ws):
        return lambda e, v: [e.fresh(w, 'arg%d' % i) for i, w in enumerate(ws)]

    def ptr(*kinds):
        def mk(e, v):
            out = []
            for k in kinds:
                if k == 'p':
                    o = e.newobj('argument', 'opaque', None, None, 'opaque')
                    out.append(PSym(e.newpsym('argument', True, lambda e, st, i=o.id: Ptr(i))))
                else:
                    out.append(e.fresh(k, 'arg'))
            return out
        return mk
    L = [('tsm_vte_reset', ints()), ('tsm_vte_hard_reset', ints()), ('tsm_vte_handle_mouse', ints(32, 32, 32, 32, 32, 32, 8)),
         ('tsm_vte_set_osc_cb', ptr('p', 'p')), ('tsm_vte_set_mouse_cb', ptr('p', 'p')),
         ('tsm_vte_set_backspace_sends_delete', ints(8)), ('tsm_vte_get_flags', ints()), ('tsm_vte_get_mouse_mode', ints()),
         ('tsm_vte_get_mouse_event', ints()), ('tsm_vte_get_def_attr', ptr('p'))]
    return [(n, mk) for n, mk in L if n in mod.funcs and not mod.funcs[n].decl]

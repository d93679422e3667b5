"""C45: input may be split over calls anywhere."""
from tsa import ir, load
from . import c32
from .c32 import mod_flag
from .inputs import *
from .ops import pool

RULE = ('tsm_vte_input() is interpreted on inputs of every small length with arbitrary bytes, an arbitrary terminal, a decoder that answers each byte with any '
        'of its states, and a parser whose every character may switch the decoding mode; decoder calls, characters handed to the parser and what is left in '
        'the terminal are compared with byte-by-byte processing')
KINDS = ('null', 'bounds', 'uninit', 'undef')
MODES = ('7BIT_MODE', '8BIT_MODE')


def parser(mod):
    """the function that takes one decoded character, and is not given to by anything that decodes"""
    def callees(f):
        return {x.a[0][1] for b in f.blocks.values() for x in b.ins if x.op == 'call' and x.a[0][0] == 'g'}
    memo = {}

    def reach(n):
        if n not in memo:
            memo[n] = set()
            f = mod.funcs.get(n)
            if f is not None and not f.decl:
                seen, work = {n}, [n]
                while work:
                    g = mod.funcs.get(work.pop())
                    if g is None or g.decl:
                        continue
                    for m in callees(g) - seen - {'tsm_vte_input'}:      # local echo comes back here
                        seen.add(m)
                        work.append(m)
                memo[n] = seen
        return memo[n]
    level, seen = ['tsm_vte_input'], {'tsm_vte_input'}
    while level:
        nxt = []
        for n in level:
            for m in sorted(callees(mod.funcs[n])):
                f = mod.funcs.get(m)
                if m in seen or f is None or f.decl:
                    continue
                seen.add(m)
                if [t for t, _ in (p[:2] for p in f.params)] == [('p',), ('i', 32)] and 'tsm_utf8_mach_feed' not in reach(m) and 'tsm_screen_write' in reach(m):
                    return m
                nxt.append(m)
        level = nxt
    raise ir.IRError('anchor: no function takes the decoded characters')


def job(r, n):
    mod = load.module('lib')
    v, t, st = terminal(r, mod, None, 0, 0, cut=False)
    e = v.e
    e.masks = True
    pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0)
    ACC, REJ = (mod.enum('TSM_UTF8_' + k) for k in ('ACCEPT', 'REJECT'))
    what = 'input of %d bytes' % n

    def put(s, k):
        """the character switches to mode k"""
        b = list(e.bits(s, v.get(s, 'flags')))
        for q, m in enumerate(MODES):
            b[mod_flag(m).bit_length() - 1] = k >> q & 1
        v.set(s, 'flags', e.from_bits(s, b, 32))

    def char(e, s, x, a):
        out = []
        for k in range(3):
            s2 = s.clone()
            s2.ev(('char', a[1], k))
            r.ob('right terminal', e.resolve(s2, a[0]) == e.resolve(s2, v.p), what, what + ': the parser gets another object')
            put(s2, k)
            out.append((s2, None if x.ty[0] == 'v' else e.unk(s2, x.ty)))
        return out

    def feed(e, s, x, a):
        out = []
        for k in range(6):
            s2 = s.clone()
            s2.ev(('feed', a[1], k))
            out.append((s2, Int(32, lc(k))))
        return out

    def got(e, s, x, a):
        u = Int(32, ls(e.S.fresh(32, 'decoded', 0, 0x10ffff)))
        s.ev(('got', u))
        return [(s, u)]

    def reset(e, s, x, a):
        s.ev(('reset',))
        return [(s, None)]
    e.stubs[parser(mod)] = char
    e.stubs.update(tsm_utf8_mach_feed=feed, tsm_utf8_mach_get=got, tsm_utf8_mach_reset=reset)
    for k0 in range(3):
        s0 = st.clone()
        put(s0, k0)
        b = e.newobj('input', 'arg', lc(n), ('a', n, ('i', 8)), 'lazy')
        x = [e.S.fresh(8, 'byte%d' % i) for i in range(n)]
        for i in range(n):
            e.store_const(s0, b, i, Int(8, ls(x[i])), 1)
        init = {f[0]: t.load(s0, f) for f in t.fields}
        at = len(s0.events())
        res = e.run('tsm_vte_input', [v.p, Ptr(b.id), Int(64, lc(n))], s0)
        r.ob('returns', bool(res), what, what + ': never returns')
        for s, ret in res:
            r.count('paths')
            ev = [q for q in s.events()[at:] if q[0] in ('char', 'feed', 'got', 'reset')]
            msg = follow(e, s, t, ev, k0, x, ACC, REJ)
            r.ob('byte by byte', msg is None, what, lambda: what + ': ' + msg)
            other = [q[1] for q in s.events()[at:] if q[0] == 'api']
            r.ob('nothing else happens', not other, what, lambda: what + ': %s is called outside the parser' % other[0])
            c32.unchanged(r, t, s, init, what, ('flags',))
            last = [q[2] for q in ev if q[0] == 'char']
            want = last[-1] if last else k0
            bits, old = list(e.bits(s, v.get(s, 'flags'))), list(e.bits(s, init['flags']))
            for q, m in enumerate(MODES):
                old[mod_flag(m).bit_length() - 1] = want >> q & 1
            r.ob('no other setting changes', bits == old, what + ':flags', what + ' changes mode flags outside the parser')
    r.engine(e, KINDS)


def follow(e, s, t, ev, mode, x, ACC, REJ):
    """None or how the calls differ from processing byte by byte"""
    ev = list(ev)

    def take(kind, k):
        if not ev or ev[0][0] != kind:
            return 'byte %d: %s instead of %s' % (k, ev[0][0] if ev else 'nothing', kind)
        return None
    for i, b in enumerate(x):
        if mode == 0:
            m = take('feed', i)
            if m:
                return m
            q = ev.pop(0)
            if not same(e, s, q[1], list(e.bits(s, Int(8, ls(b))))):
                return 'byte %d: something else is given to the decoder' % i
            if q[2] not in (ACC, REJ):
                continue
            m = take('got', i)
            if m:
                return m
            u = ev.pop(0)[1]
            bits = list(e.bits(s, u))
        else:
            bits = list(e.bits(s, Int(8, ls(b))))
            if mode & 1:
                bits[7] = 0
                if s.prove(laddk(ls(b), -128)):
                    low = laddk(ls(b), -128)
                elif s.prove(laddk(ls(b, -1), 127)):
                    low = ls(b)
                else:
                    low = None
                if low is not None and ev and ev[0][0] == 'char' and isinstance(ev[0][1], Int) and s.proveq(e.norm_u(s, ev[0][1]), low):
                    mode = ev.pop(0)[2]
                    continue
        m = take('char', i)
        if m:
            return m
        q = ev.pop(0)
        if not same(e, s, q[1], bits):
            return 'byte %d: another character is given to the parser' % i
        mode = q[2]
    return '%s after the last byte' % ev[0][0] if ev else None


def same(e, s, v, bits):
    if not isinstance(v, Int):
        return False
    b = list(e.bits(s, v))
    bits = bits + [0] * (len(b) - len(bits))
    return b == bits[:len(b)]


def check(Check):
    c = Check('C45', 'proof', RULE)
    load.module('lib')
    pool(c, list(range(6 if c.thorough else 4)), job)
    c.floor('paths', c.cov.get('paths', 0), 500)
    return c.finish()

"""C06: UTF-8 encoding."""
import itertools

from tsa import load
from .inputs import *

RULE = ('the encoder is interpreted on an arbitrary value of every class of 32-bit values into a buffer of four bytes; length and every bit of '
        'every byte are compared with the UTF-8 definition, stores outside the encoded bytes are violations; the string builder and the '
        'collection of command text are interpreted on arbitrary sequences of such classes with buffers of their own size')
KINDS = ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free')
CLS = [(0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xfff, 3), (0x1000, 0xd7ff, 3), (0xd800, 0xdfff, 0), (0xe000, 0xfdcf, 3), (0xfdd0, 0xfdef, 0),
       (0xfdf0, 0xfffd, 3), (0xfffe, 0xffff, 0)]
for p in range(1, 17):
    CLS += [(p << 16, (p << 16) + 0xfffd, 4), ((p << 16) + 0xfffe, (p << 16) + 0xffff, 0)]
CLS += [(0x110000, 0x1fffff, 0), (0x200000, 0x7fffffff, 0), (0x80000000, 0xffffffff, 0)]


def encoded(bits, n):
    """[bits of each byte, lowest first]"""
    if n == 1:
        return [bits[:7] + [0]]
    out = []
    for k in range(n):
        sh = 6 * (n - 1 - k)
        if k:
            out.append(bits[sh:sh + 6] + [0, 1])
        else:
            keep = 7 - n
            out.append(bits[sh:sh + keep] + [0] + [1] * n)
    return out


def norm(s, bits):
    return [s.bit(*q) if isinstance(q, tuple) and len(q) == 2 and q[0] != 'not' else q for q in bits]


def want(e, s, x, n):
    b = norm(s, list(e.bits(s, Int(32, ls(x)))))
    return encoded(b, n)


def matches(e, s, o, off, exp):
    for k, w in enumerate(exp):
        v = e.load_const(s, o, off + k, ('i', 8), 1, None)
        if not isinstance(v, Int) or norm(s, list(e.bits(s, v))) != list(w):
            return k
    return None


def check(Check):
    c = Check('C06', 'proof', RULE)
    mod = load.module('lib')
    n = 0
    for lo, hi, k in CLS:
        e = Engine(mod)
        st = e.new_state()
        buf = e.newobj('txt', 'arg', lc(4), ('a', 4, ('i', 8)), 'lazy')
        x = e.S.fresh(32, 'value', lo, hi)
        hit = []
        e.on_store = lambda st, o, p, v, size, ins: hit.append(st.const(p.l)) if o.id == buf.id else None
        what = 'values %#x-%#x' % (lo, hi)
        outs = e.run('tsm_ucs4_to_utf8', [Int(32, ls(x)), Ptr(buf.id)], st)
        c.engine(e, KINDS)
        c.fns |= set(e.fn_used)
        c.ob('returns', bool(outs), what, what)
        for s, r in outs:
            n += 1
            got = s.const(r.l)
            c.ob('length', got == k, what, lambda: '%s: %s bytes are written instead of %d' % (what, got, k))
            c.ob('nothing beyond the character', all(p is not None and 0 <= p < k for p in hit), what, lambda: '%s: writes beyond its %d bytes' % (what, k))
            if got == k:
                bad = matches(e, s, buf, 0, want(e, s, x, k))
                c.ob('bytes', bad is None, what, lambda: '%s: byte %d of the encoding is wrong' % (what, bad))
    c.floor('encoder paths', n, len(CLS))
    c.sample('tsm_ucs4_to_utf8(%#x-%#x): %d bytes' % CLS[10])
    alloc(c, mod)
    collect(c, mod)
    return c.finish()


REP = [CLS[0], CLS[1], CLS[3], CLS[4], CLS[9], CLS[-1]]


def alloc(c, mod):
    n = 0
    for k in range(0, 4):
        for cl in itertools.product(REP, repeat=k):
            if k == 3 and (sum(x[2] for x in cl) + len(set(cl))) % 3:
                continue
            for fail in ((0, 1) if k < 2 else (0,)):
                e = Engine(mod)
                e.alloc_fail = bool(fail)
                e.trace_alloc = True
                e.peel = e.unroll = 64
                st = e.new_state()
                src = e.newobj('ucs4', 'arg', lc(4 * k), ('a', k, ('i', 32)), 'lazy')
                xs = [e.S.fresh(32, 'value%d' % i, lo, hi) for i, (lo, hi, _) in enumerate(cl)]
                for i, x in enumerate(xs):
                    e.store_const(st, src, 4 * i, Int(32, ls(x)), 4)
                out = e.newobj('len', 'arg', lc(8), ('i', 64), 'lazy')
                what = 'tsm_ucs4_to_utf8_alloc() of %s' % ', '.join('%#x-%#x' % q[:2] for q in cl)
                outs = e.run('tsm_ucs4_to_utf8_alloc', [Ptr(src.id), Int(64, lc(k)), Ptr(out.id) if n % 3 else NULL], st)
                c.engine(e, KINDS)
                c.fns |= set(e.fn_used)
                c.ob('returns', bool(outs), 'tsm_ucs4_to_utf8_alloc', what)
                tot = sum(q[2] for q in cl)
                for s, r in outs:
                    p = e.resolve(s, r)
                    live = [q[1] for q in s.events() if q[0] == 'alloc' and q[1] not in s.freed]
                    if s.gh.get('oom') or tot == 0:
                        c.ob('no string', p == NULL and not live, 'tsm_ucs4_to_utf8_alloc', lambda: what + ': no text, but not nothing')
                        continue
                    ok = isinstance(p, Ptr) and p.o in live and len(live) == 1
                    if not c.ob('string', ok, 'tsm_ucs4_to_utf8_alloc', lambda: what + ': no string is returned'):
                        continue
                    if n % 3:
                        l = e.load_const(s, out, 0, ('i', 64), 8, None)
                        c.ob('string length', s.const(l.l) == tot, 'tsm_ucs4_to_utf8_alloc', lambda: '%s: length %s' % (what, s.const(l.l)))
                    off = 0
                    for x, (lo, hi, m) in zip(xs, cl):
                        c.ob('string bytes', matches(e, s, e.objs[p.o], off, want(e, s, x, m)) is None, 'tsm_ucs4_to_utf8_alloc', lambda: what)
                        off += m
                n += 1
    c.floor('strings', n, 80)


def collect(c, mod):
    """command text: each character is appended whole or dropped whole"""
    d = mod.member('tsm_vte', 'osc_arg')
    size, at = d['size'], d['off']
    n = 0
    for lo, hi, k in [(0x20, 0x7e, 1), (0xa0, 0x7ff, 2)] + [q for q in CLS if q[0] >= 0x800 and q[1] <= 0x10ffff]:
        if lo > 0x20000 and lo < 0x100000:
            continue
        for used in sorted({0, 1, 17, size - 6, size - 5, size - 4, size - 3, size - 2, size - 1}):
            v, t, st = terminal(c, mod, 'OSC_STRING', lo, hi, argc=0)
            pin_flags(v, st, PREPEND_ESCAPE=0, SEND_RECEIVE_MODE=1, **{'8BIT_MODE': 0, '7BIT_MODE': 0})
            e = v.e
            v.setc(st, 'osc_len', used)
            text = [e.load_const(st, v.o, at + i, ('i', 8), 1, None) for i in range(used)]
            what = 'collecting %#x-%#x after %d bytes' % (lo, hi, used)
            key = 'command text, %d-byte characters' % k
            outs = v.run_char(st)
            c.fns |= set(e.fn_used)
            c.engine(e, KINDS)
            c.ob('returns', bool(outs), key, what)
            for s, _ in outs:
                n += 1
                got = s.const(v.get(s, 'osc_len').l)
                fit = used + k <= size - 1
                c.ob('text length', got == used + (k if fit else 0), key, lambda: '%s: the text is %s bytes long then' % (what, got))
                kept = all(t.eq(s, e.load_const(s, v.o, at + i, ('i', 8), 1, None), x) for i, x in enumerate(text))
                c.ob('text kept', kept, key, lambda: '%s changes earlier text' % what)
                if fit and k and got == used + k:
                    c.ob('text bytes', matches(e, s, v.o, at + used, want(e, s, v.cp, k)) is None, key, what)
    c.floor('characters collected', n, 100)

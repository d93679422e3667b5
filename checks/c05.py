"""C05: UTF-8 decoding accepts exactly well-formed UTF-8."""
from tsa import load
from .inputs import *

RULE = ('the decoder is interpreted on up to four abstract bytes, partitioned by the classes of the Unicode table of well-formed '
        'sequences, from every rest state with arbitrary remembered bits; outputs and decoded values (bit by bit) are compared with the '
        'table on every path; the parser is shown to feed every byte once and to take a character exactly when one is complete')

B1 = [(0, 0x7f), (0x80, 0xbf), (0xc0, 0xc1), (0xc2, 0xdf), (0xe0, 0xe0), (0xe1, 0xe1), (0xe2, 0xe3), (0xe4, 0xe7), (0xe8, 0xeb), (0xec, 0xec), (0xed, 0xed), (0xee, 0xef), (0xf0, 0xf0),
      (0xf1, 0xf1), (0xf2, 0xf3), (0xf4, 0xf4), (0xf5, 0xff)]
BN = [(0, 0x7f), (0x80, 0x8f), (0x90, 0x9f), (0xa0, 0xbf), (0xc0, 0xff)]
SECOND = {0xe0: (0xa0, 0xbf), 0xed: (0x80, 0x9f), 0xf0: (0x90, 0xbf), 0xf4: (0x80, 0x8f)}


def length(b):
    """announced length of the sequence started by byte class b, 0 for bytes that start none"""
    lo = b[0]
    return 1 if lo < 0x80 else 0 if lo < 0xc2 or lo > 0xf4 else 2 if lo < 0xe0 else 3 if lo < 0xf0 else 4


def cont(b):
    return b[0] >= 0x80 and b[1] <= 0xbf


def valid_prefix(bs):
    n = length(bs[0])
    if not n or len(bs) > n:
        return False
    for i, b in enumerate(bs[1:]):
        if not cont(b):
            return False
        if i == 0:
            lo, hi = SECOND.get(bs[0][0], (0x80, 0xbf))
            if b[0] < lo or b[1] > hi:
                return False
    return True


def check(Check):
    c = Check('C05', 'proof', RULE)
    mod = load.module('lib')
    START, ACC, REJ = (mod.enum('TSM_UTF8_' + x) for x in ('START', 'ACCEPT', 'REJECT'))
    E = Engine(mod)
    E.maxstates = 10 ** 6
    c.sequences = 0
    for rest in (START, ACC, REJ):
        for b in B1:
            explore(c, mod, E, (START, ACC, REJ), rest, b)
    # a reset returns to the rest state, creation too
    st, o = machine(mod, E)
    for s, r in E.run('tsm_utf8_mach_reset', [Ptr(o.id)], st):
        x = E.load(s, Ptr(o.id, lc(mod.member('tsm_utf8_mach', 'state')['off'])), ('i', 32), None)
        c.ob('reset', s.const(x.l) in (START, ACC, REJ), None, 'a reset decoder still expects continuation bytes')
    created(c, mod, E, (START, ACC, REJ))
    n = wiring(c, mod, (START, ACC, REJ))
    c.fns |= set(E.fn_used)
    c.engine(E, ('bounds', 'null', 'uninit', 'undef'), 'safety: ')
    c.floor('byte class sequences', c.sequences, 300)
    c.floor('parser input paths', n, 8)
    return c.finish()


def machine(mod, E, state=None):
    st = E.new_state()
    o = E.newobj('utf8_mach', 'arg', lc(mod.sizeof(('s', 'struct.tsm_utf8_mach'))), ('s', 'struct.tsm_utf8_mach'), 'lazy', sname='tsm_utf8_mach')
    if state is not None:
        E.store_const(st, o, mod.member('tsm_utf8_mach', 'state')['off'], Int(32, lc(state)), 4)
    return st, o


def explore(c, mod, E, enum, rest, b1):
    START, ACC, REJ = enum
    st, o = machine(mod, E, rest)
    work = [(st, [], [])]
    while work:
        st, bs, syms = work.pop()
        for b in ([b1] if not bs else BN):
            x = E.S.fresh(8, 'byte%d' % (len(bs) + 1), b[0], b[1])
            seq = bs + [b]
            c.sequences += 1
            what = ' '.join('%02x-%02x' % q for q in seq)
            for s, r in E.run('tsm_utf8_mach_feed', [Ptr(o.id), Int(8, ls(x))], st.clone()):
                k = s.const(r.l) if isinstance(r, Int) else None
                c.ob('determined outcome', k is not None, what, 'bytes %s: outcome depends on something else than the bytes' % what)
                if k is None:
                    continue
                sy = syms + [x]
                got = get(E, o, s)
                state = s.const(E.load(s, Ptr(o.id, lc(mod.member('tsm_utf8_mach', 'state')['off'])), ('i', 32), None).l)
                n = length(seq[0])
                if valid_prefix(seq):
                    if len(seq) < n:
                        c.ob('no early output', k not in (ACC, REJ), what, 'bytes %s: the incomplete sequence is already %s' % (
                            what, 'accepted' if k == ACC else 'rejected'))
                        if k not in (ACC, REJ):
                            work.append((s, seq, sy))
                        continue
                    c.ob('well-formed accepted', k == ACC, what, 'bytes %s: the well-formed sequence is not accepted' % what)
                    if k == ACC:
                        w = value(E, s, sy)
                        for s2, g in got:
                            gb = [s2.bit(*q) if isinstance(q, tuple) else q for q in E.bits(s2, g)]
                            wb = [s2.bit(*q) if isinstance(q, tuple) else q for q in w]
                            c.ob('exact value', gb == wb, what, 'bytes %s: decoded to a wrong code point' % what)
                        c.sample('%s accepted, value bits from bytes %d' % (what, len(seq)))
                    continue
                c.ob('malformed never accepted', k != ACC, what, 'bytes %s: the malformed sequence is accepted' % what)
                if len(seq) == 1 and cont(b):
                    # stray continuation byte: no character, nothing pending
                    c.ob('stray bytes skipped', k != ACC and state in enum, what, 'byte %s: a stray continuation byte starts something' % what)
                elif k != REJ:
                    # still undecided: allowed only while continuation bytes of the announced length follow
                    more = (len(seq) == 1 and n == 0) or (all(cont(q) for q in seq[1:]) and len(seq) < max(n, 2))
                    c.ob('malformed rejected in time', k != ACC and more and len(seq) < 4, what, 'bytes %s: the malformed sequence is not rejected' % what)
                    if k != ACC and more and len(seq) < 4:
                        work.append((s, seq, sy))
                    continue
                if k == REJ:
                    for s2, g in got:
                        c.ob('replacement character', s2.const(g.l) == 0xfffd, what, 'bytes %s: the rejected sequence does not become U+FFFD' % what)
                if k in (ACC, REJ):
                    c.ob('fresh start', state in enum, what, 'bytes %s: after the sequence the decoder does not start afresh' % what)


def get(E, o, st):
    return E.run('tsm_utf8_mach_get', [Ptr(o.id)], st.clone())


def value(E, s, syms):
    bits = [E.bits(s, Int(8, ls(x))) for x in syms]
    n = len(bits)
    if n == 1:
        v = bits[0][:7]
    else:
        v = []
        for b in reversed(bits[1:]):
            v += b[:6]
        v += bits[0][:{2: 5, 3: 4, 4: 3}[n]]
    return v + [0] * (32 - len(v))


def created(c, mod, E, enum):
    """tsm_utf8_mach_new leaves a decoder at rest"""
    st = E.new_state()
    out = E.newobj('out', 'arg', lc(8), ('p',), 'lazy')
    n = 0
    for s, r in E.run('tsm_utf8_mach_new', [Ptr(out.id)], st):
        k = s.const(E.norm_s(s, r))
        if k != 0:
            continue
        p = E.resolve(s, E.load(s, Ptr(out.id), ('p',), None))
        x = E.load(s, Ptr(p.o, lc(mod.member('tsm_utf8_mach', 'state')['off'])), ('i', 32), None)
        n += 1
        c.ob('reset', isinstance(x, Int) and s.const(x.l) in enum, 'new', 'a new decoder expects continuation bytes')
    c.ob('reset', n > 0, 'new', 'no decoder can be created')


def wiring(c, mod, enum):
    """the parser feeds each byte exactly once and takes a character when the decoder completes one"""
    START, ACC, REJ = enum
    n = 0
    for k in sorted({v for v in range(0, 6)}):
        v, t, st = terminal(c, mod, 'GROUND', 0, 0, cut=False)
        pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0, **{'7BIT_MODE': 0, '8BIT_MODE': 0})
        fed = []

        def feed(e, st, x, a, k=k):
            st.ev(('feed', a[1]))
            return [(st, Int(32, lc(k)))]

        def got(e, st, x, a):
            st.ev(('got',))
            return [(st, Int(32, lc(0x41)))]
        v.e.stubs['tsm_utf8_mach_feed'] = feed
        v.e.stubs['tsm_utf8_mach_get'] = got
        b = v.e.newobj('input', 'arg', lc(2), ('a', 2, ('i', 8)), 'lazy')
        x = [v.e.S.fresh(8, 'byte%d' % i) for i in range(2)]
        for i in range(2):
            v.e.store_const(st, b, i, Int(8, ls(x[i])), 1)
        for s, r in v.e.run('tsm_vte_input', [v.p, Ptr(b.id), Int(64, lc(2))], st):
            n += 1
            ev = s.events()
            f = [q for q in ev if q[0] == 'feed']
            ok = len(f) == 2 and all(t.eq(s, q[1], ls(x[i])) for i, q in enumerate(f))
            c.ob('every byte decoded once', ok, 'state %d' % k, 'the parser does not feed every input byte exactly once in order')
            w = [q for q in ev if q[0] == 'api' and q[1] == 'tsm_screen_write']
            want = 2 if k in (ACC, REJ) else 0
            c.ob('character exactly when complete', len(w) == want, 'state %d' % k, 'the parser prints %d characters for 2 %s' % (
                len(w), 'complete sequences' if want else 'bytes that complete none'))
        c.fns |= set(v.e.fn_used)
    # without UTF-8 the bytes themselves are the characters
    for mode, mask in (('7BIT_MODE', 0x7f), ('8BIT_MODE', 0xff)):
        for lo, hi, nxt in ((0x1b, 0x1b, 'ESC'), (0x9b, 0x9b, 'ESC' if mask == 0x7f else 'CSI_ENTRY')):
            v, t, st = terminal(c, mod, 'GROUND', 0, 0, cut=False)
            pin_flags(v, st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0, **{'7BIT_MODE': int(mode[0] == '7'), '8BIT_MODE': int(mode[0] == '8')})
            b = v.e.newobj('input', 'arg', lc(1), ('a', 1, ('i', 8)), 'lazy')
            v.e.store_const(st, b, 0, Int(8, lc(lo)), 1)
            for s, r in v.e.run('tsm_vte_input', [v.p, Ptr(b.id), Int(64, lc(1))], st):
                n += 1
                c.ob('byte modes', t.eq(s, v.get(s, 'state'), mod.enum('STATE_' + nxt)), '%s %#x' % (mode, lo),
                     '%s: byte %#x is not taken as character %#x' % (mode, lo, lo & mask))
    return n

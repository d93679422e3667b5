"""C10: key presses map to the documented byte sequences."""
from tsa import load
from tsa.vte import *
from . import keyspec
from .tab import *
from .c32 import mod_flag

RULE = ('the keyboard handler is interpreted with arbitrary key symbol, ASCII value, modifiers, character and modes; on every '
        'abstract path the concatenated output bytes and the result are compared with the key table')

FN = 'tsm_vte_handle_keyboard'


def key(n):
    return load.macro('XKB_KEY_' + n)


def mask(n):
    return {'shift': 1, 'ctrl': 4, 'alt': 8}[n]


def harness(c, mod, ctrl, echo=False):
    v = Vte(mod)
    e = v.e
    e.split_idx = 20
    e.peel = e.unroll = 64
    e.maxstates = 10 ** 6
    e.switch_group = False
    t = Tab(v, c)
    st = v.st
    pe, sr = mod_flag('PREPEND_ESCAPE'), mod_flag('SEND_RECEIVE_MODE')
    b = e.bits(st, v.get(st, 'flags'))
    b = [0 if (pe >> i) & 1 else (0 if echo else 1) if (sr >> i) & 1 else x for i, x in enumerate(b)]
    v.set(st, 'flags', e.from_bits(st, b, 32))
    if echo:
        v.setc(st, 'parse_cnt', 0, 64)
    a = [e.S.fresh(32, n) for n in ('keysym', 'ascii', 'mods', 'unicode')]
    mods = Int(32, ls(a[2]))
    mb = e.bits(st, mods)
    mb = [(1 if ctrl else 0) if i == 2 else x for i, x in enumerate(mb)]
    mods = e.from_bits(st, mb, 32)
    args = [Int(32, ls(a[0])), Int(32, ls(a[1])), mods, Int(32, ls(a[3]))]
    return v, t, st, args


def output(t, st):
    """concatenated bytes of all writes, or None when a write is malformed"""
    out = []
    for x in t.acts(st):
        if x[0] != 'cb' or x[1] != 'write_cb' or not isinstance(x[3], tuple) or (x[3] and x[3][0] == 'fmt'):
            return None
        out += list(x[3])
    return out


def show(bs):
    if bs is None:
        return 'malformed output'
    return repr(''.join('\\x%02x' % b if isinstance(b, int) and not 32 <= b < 127 else chr(b) if isinstance(b, int) else '<byte>' for b in bs))


def bytes_eq(t, st, got, want):
    if got is None or len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, list):                      # bit pattern
            gb = t.e.bits(st, g) if isinstance(g, Int) else [g >> i & 1 for i in range(8)]
            gb = [st.const(ls(b[1])) if isinstance(b, tuple) and len(b) == 2 and b[0] == 's' and st.const(ls(b[1])) is not None else b
                  for b in gb]
            if gb != w:
                return False
        elif isinstance(g, int):
            if g != w:
                return False
        elif not t.eq(st, g, w):
            return False
    return True


def utf8(t, st, u):
    """states with the expected encoding of a Unicode scalar value (bit patterns), None when there is none"""
    sets = [[(0, 0x7f)], [(0x80, 0x7ff)], [(0x800, 0xd7ff), (0xe000, 0xfdcf), (0xfdf0, 0xfffd)]]
    big = []
    for p in range(1, 17):
        big.append((p << 16, (p << 16) + 0xfffd))
    sets += [big, None]
    for s, i in t.split(st, u, sets, signed=False):
        b = t.e.bits(s, u)
        if i == 0:
            w = [b[0:7] + [0]]
        elif i == 1:
            w = [b[6:11] + [0, 1, 1], b[0:6] + [0, 1]]
        elif i == 2:
            w = [b[12:16] + [0, 1, 1, 1], b[6:12] + [0, 1], b[0:6] + [0, 1]]
        elif i == 3:
            w = [b[18:21] + [0, 1, 1, 1, 1], b[12:18] + [0, 1], b[6:12] + [0, 1], b[0:6] + [0, 1]]
        else:
            w = None
        yield s, w


def conds(t, st, names, args, init):
    """split by the truth of the named conditions: yields (state, dict)"""
    sts = [(st, {})]
    for n in names:
        nxt = []
        for s, d in sts:
            if n in ('shift', 'ctrl', 'alt'):
                for s2, q in t.bit_split(s, args[2], mask(n)):
                    nxt.append((s2, dict(d, **{n: q})))
            elif n == 'del':
                for s2, i in t.split(s, init['backspace_sends_delete'], [[(0, 0)], None], signed=False):
                    nxt.append((s2, dict(d, **{n: i == 1})))
            else:
                f = {'ckm': 'CURSOR_KEY_MODE', 'kpam': 'KEYPAD_APPLICATION_MODE', 'lnm': 'LINE_FEED_NEW_LINE_MODE',
                     '7bit': '7BIT_MODE', '8bit': '8BIT_MODE'}[n]
                for s2, q in t.bit_split(s, init['flags'], mod_flag(f)):
                    nxt.append((s2, dict(d, **{n: q})))
        sts = nxt
    return sts


def explore(c, mod, verdict, echo=False, prep=None):
    """call verdict(t, state, result, args, expected bytes or None, description) on every abstract path;
    -> (keys met, paths)"""
    CT = keyspec.ctrl_table(key)
    KT = keyspec.key_table(key)
    name = {}
    for n, k in load.macros().items():
        if n.startswith('XKB_KEY_'):
            name.setdefault(k, n[8:])
    paths = 0
    keys = set()
    engines = []
    for ctrl in (False, True):
        v, t, st, args = harness(c, mod, ctrl, echo)
        if prep:
            prep(v, t, st)
        engines.append(v.e)
        init = t.initial()
        ends = v.e.run(FN, [v.p] + args, st)
        for s0, ret in ends:
            sts = []
            if ctrl:
                # the ASCII alternative decides control combinations, the key symbol when there is none
                for s, i in t.split(s0, args[1], [[(0, 0)], [(k, k) for k in CT], None], signed=False):
                    if i == 0:
                        for s2, j in t.split(s, args[0], [[(k, k)] for k in CT] + [None], signed=False):
                            sts.append((s2, list(CT)[j] if j < len(CT) else None))
                    elif i == 1:
                        for s2, j in t.split(s, args[1], [[(k, k)] for k in CT], signed=False):
                            sts.append((s2, list(CT)[j]))
                    else:
                        sts.append((s, None))
            else:
                sts.append((s0, None))
            for s, ck in sts:
                if ck is not None:
                    keys.add(('ctrl', ck))
                    verdict(t, s, ret, args, CT[ck], 'Ctrl+%s' % name.get(ck, ck))
                    paths += 1
                    continue
                kl = list(KT)
                for s2, j in t.split(s, args[0], [[(k, k)] for k in kl] + [None], signed=False):
                    if j < len(kl):
                        rules = KT[kl[j]]
                        keys.add(kl[j])
                        need = sorted({x for cs, _ in rules for x in cs})
                        for s3, d in conds(t, s2, need, args, init):
                            want = next(b for cs, b in rules if all(d[x] for x in cs))
                            verdict(t, s3, ret, args, want, 'key %s%s' % (name.get(kl[j], kl[j]), ''.join(
                                ' %s=%d' % kv for kv in sorted(d.items()))))
                            paths += 1
                        continue
                    # plain characters
                    for s3, i in t.split(s2, args[3], [[(0xffffffff, 0xffffffff)], None], signed=False):
                        if i == 0:
                            paths += 1
                            verdict(t, s3, ret, args, None, 'key without sequence and character')
                            continue
                        for s4, d in conds(t, s3, ['7bit', '8bit'], args, init):
                            if d['7bit'] or d['8bit']:
                                lim = 0x7f if d['7bit'] else 0xff
                                for s5, q in t.split(s4, args[3], [[(0, lim)], None], signed=False):
                                    paths += 1
                                    verdict(t, s5, ret, args, [t.e.bits(s5, args[3])[:8]] if q == 0 else b'?',
                                            'character in %s mode' % ('7-bit' if d['7bit'] else '8-bit'))
                            else:
                                for s5, w in utf8(t, s4, args[3]):
                                    paths += 1
                                    verdict(t, s5, ret, args, w, 'character in UTF-8 mode %r' % (s5.d(args[3].l[1][0][0])[:3],))
    return keys, paths, engines


def check(Check):
    c = Check('C10', 'proof', RULE)
    mod = load.module('lib')
    cnt = [0]

    def vd(t, st, ret, args, want, what):
        cnt[0] += 1
        if cnt[0] % 2003 == 1:
            c.sample('%s -> %s' % (what, show(output(t, st))))
        verdict(c, t, st, ret, args, want, what)

    keys, paths, engines = explore(c, mod, vd)
    for e in engines:
        c.engine(e, ('bounds', 'null', 'uninit', 'undef'), 'safety: ')
    c.floor('keys', len(keys), 144)
    c.floor('abstract paths', paths, 400)
    return c.finish()


def verdict(c, t, st, ret, args, want, what):
    for s, alt in t.bit_split(st, args[2], mask('alt')):
        got = output(t, s)
        w = None if want is None else ([0x1b] if alt else []) + list(want)
        ok = bytes_eq(t, s, got, w or [])
        c.ob('output', ok, what, lambda: '%s%s sends %s, documented: %s' % ('Alt+' if alt else '', what, show(got), show([
            x if isinstance(x, int) else 0x3f for x in w or []])))
        k = s.const(ret.l) if isinstance(ret, Int) else None
        if isinstance(ret, Cond):
            d = t.e.decide(s, ret)
            k = None if d is None else int(d)
        c.ob('result', k == (0 if w is None else 1), what, lambda: '%s reports %s although it %s output' % (
            what, k, 'produced' if got else 'produced no'))

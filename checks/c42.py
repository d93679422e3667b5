"""C42: operating system commands reach the subscriber complete."""
from tsa import load
from .inputs import *
from .ops import merge, pool, Rec
from . import c06

RULE = ('one character is interpreted in every parser state; in the string state the text collected so far has every length that fits the '
        'buffer and arbitrary bytes. The bytes appended are compared with the UTF-8 form of the character, the memory the subscriber is '
        'handed is compared, byte by byte and with its terminator, with the text at the moment of the call, and every call of the '
        'subscriber is counted. That the unused part of the buffer is zero is assumed only if starting and collecting keep it so')
KINDS = ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free')
# classes of characters in the string state: (first, last, bytes appended; None: the string ends, 0: ignored)
TEXT = [(0x20, 0x7e, 1), (0x7f, 0x7f, 1), (0xa0, 0x7ff, 2)] + \
       [q for q in c06.CLS if q[0] >= 0x800 and (q[1] <= 0x2ffff or 0x100000 <= q[0] <= 0x10ffff) and q[1] <= 0x10ffff]
IGNORED = [(0, 6), (8, 0x17), (0x19, 0x19), (0x1c, 0x1f)]
ENDS = [(7, 7), (0x18, 0x18), (0x1a, 0x1a), (0x1b, 0x1b), (0x80, 0x8f), (0x90, 0x90), (0x91, 0x97), (0x98, 0x98), (0x99, 0x99),
        (0x9a, 0x9a), (0x9b, 0x9b), (0x9c, 0x9c), (0x9d, 0x9d), (0x9e, 0x9f)]
PINS = {'PREPEND_ESCAPE': 0, 'SEND_RECEIVE_MODE': 1, '8BIT_MODE': 0, '7BIT_MODE': 0}


def fields(v, st):
    """what the subscriber was registered with"""
    return [v.e.load(st, Ptr(v.o.id, lc(v.off(f))), ('p',), None) for f in ('osc_cb', 'osc_data')]


class World:
    """a terminal in the string state with `used` bytes of arbitrary text"""

    def __init__(self, r, mod, lo, hi, used, zero):
        self.r = r
        self.v, self.t, self.st = terminal(r, mod, 'OSC_STRING', lo, hi, argc=0)
        v, e, st = self.v, self.v.e, self.st
        pin_flags(v, st, **PINS)
        d = mod.member('tsm_vte', 'osc_arg')
        self.at, self.size = d['off'], d['size']
        v.setc(st, 'osc_len', used)
        self.used = used
        self.text = [e.load_const(st, v.o, self.at + i, ('i', 8), 1, None) for i in range(used)]
        if zero:
            for i in range(used, self.size):
                e.store_const(st, v.o, self.at + i, Int(8, lc(0)), 1)
        self.reg = fields(v, st)
        orig = e.callback

        def callback(st, x, name, vals):
            if name == 'osc_cb':
                st.ev(('osc', tuple(vals), tuple(e.load_const(st, v.o, self.at + i, ('i', 8), 1, None) for i in range(used + 1))))
            return orig(st, x, name, vals)
        e.callback = callback

    def go(self, what, key):
        outs = self.v.run_char(self.st)
        self.r.fns |= set(self.v.e.fn_used)
        self.r.engine(self.v.e, KINDS)
        self.r.ob('returns', bool(outs), key, what)
        return [s for s, _ in outs]

    def same_reg(self, s, what, key):
        self.r.ob('subscription kept', all(self.v.e.resolve(s, a) == self.v.e.resolve(s, b) for a, b in zip(fields(self.v, s), self.reg)), key,
                  lambda: what + ': the subscriber changes')

    def kept(self, s, what, key):
        t = self.t
        ok = all(t.eq(s, self.v.e.load_const(s, self.v.o, self.at + i, ('i', 8), 1, None), x) for i, x in enumerate(self.text))
        self.r.ob('text kept', ok, key, lambda: what + ' changes the text collected before')


def job(r, j):
    mod = load.module('lib')
    kind, lo, hi, k, used, zero = j
    w = World(r, mod, lo, hi, used, zero)
    v, e = w.v, w.v.e
    what = 'character %#x-%#x after %d bytes of command text' % (lo, hi, used)
    key = {'text': 'text', 'ign': 'ignored controls', 'end': 'end of the string'}[kind]
    for s in w.go(what, key):
        r.count('end states')
        calls = [x for x in s.events() if x[0] == 'osc']
        w.same_reg(s, what, key)
        n = s.const(v.get(s, 'osc_len').l)
        if kind != 'end':
            r.ob('no early call', not calls, key, lambda: what + ': the subscriber is called in the middle of the string')
            fit = k and used + k <= w.size - 1
            r.ob('text length', n == used + (k if fit else 0), key, lambda: '%s: the text is %s bytes long then' % (what, n))
            w.kept(s, what, key)
            if n is None or not blank(v, s, w.at, n, w.size):
                r.count('rest of the buffer not zero')
            if fit and n == used + k:
                r.ob('text bytes', c06.matches(e, s, v.o, w.at + used, c06.want(e, s, v.cp, k)) is None, key,
                     lambda: what + ': the bytes appended are not the UTF-8 form of the character')
            continue
        for z, inst in registered(e, s, w.reg[0]):
            if not inst:
                r.ob('no subscriber', not calls, key, lambda: what + ': nobody subscribed, yet a subscriber is called')
                continue
            r.ob('called once', len(calls) == 1, key, lambda: '%s: the subscriber is called %d times' % (what, len(calls)))
            for _, a, b in calls:
                r.ob('arguments', len(a) == 4 and ptr(e, z, a[0]) == (v.o.id, 0) and e.resolve(z, a[3]) == e.resolve(z, w.reg[1]), key,
                     lambda: what + ': terminal or user data handed to the subscriber are not the registered ones')
                r.ob('whole text', ptr(e, z, a[1]) == (v.o.id, w.at) and z.const(a[2].l) == used, key,
                     lambda: '%s: the subscriber is told a text of %s bytes' % (what, z.const(a[2].l)))
                r.ob('whole text', all(w.t.eq(z, x, y) for x, y in zip(b, w.text)), key,
                     lambda: what + ': the text handed over is not the text collected')
                r.ob('terminated', isinstance(b[used], Int) and z.const(b[used].l) == 0, key,
                     lambda: what + ': the text handed over is not terminated where it ends')


def blank(v, s, at, n, size):
    """are the bytes behind the text zero?"""
    b = [v.e.load_const(s, v.o, at + i, ('i', 8), 1, None) for i in range(n, size)]
    return all(isinstance(x, Int) and s.const(x.l) == 0 for x in b)


def ptr(e, s, p):
    p = e.resolve(s, p)
    return (p.o, s.const(p.l)) if isinstance(p, Ptr) else None


def registered(e, st, p):
    """[(state, is there a subscriber)]"""
    p = e.resolve(st, p)
    return [(st, p is not NULL)]


def outside(c, mod):
    """every other state: the subscriber is not called, and a new string starts empty"""
    n = 0
    starts = 0
    zero = True
    d = mod.member('tsm_vte', 'osc_arg')
    for S in STATES:
        for lo, hi in [(0, 6), (7, 7), (8, 0x17), (0x18, 0x18), (0x19, 0x19), (0x1a, 0x1a), (0x1b, 0x1b), (0x1c, 0x1f), (0x20, 0x2f), (0x30, 0x3f),
                       (0x5d, 0x5d), (0x9c, 0x9c), (0x9d, 0x9d), (0xa0, 0x10ffff)]:
            if S == 'OSC_STRING' and lo not in (0x9d,):
                continue
            v, t, st = terminal(c, mod, S, lo, hi)
            pin_flags(v, st, **PINS)
            v.st = st
            reg = fields(v, st)
            what = 'state %s, %#x-%#x' % (S, lo, hi)
            for s, _ in v.run_char(st):
                n += 1
                cbs = [x for x in s.events() if x[0] == 'cb' and x[1] == 'osc_cb']
                c.ob('no stray call', not cbs or S == 'OSC_STRING', S, lambda: what + ': the subscriber is called without a finished string')
                c.ob('subscription kept', all(v.e.resolve(s, a) == v.e.resolve(s, b) for a, b in zip(fields(v, s), reg)), S,
                     lambda: what + ': the subscriber changes')
                now = s.const(v.get(s, 'state').l) == mod.enum('STATE_OSC_STRING')
                # 8-bit and 7-bit introducers
                if lo == 0x9d or S == 'ESC' and lo == 0x5d:
                    starts += 1
                    c.ob('string starts', now, S, lambda: what + ' does not start a string')
                    zero = zero and blank(v, s, d['off'], 0, d['size'])
                    c.ob('starts empty', s.const(v.get(s, 'osc_len').l) == 0, S, lambda: what + ': old text is left in the new string')
                elif S != 'OSC_STRING':
                    c.ob('string starts', not now, S, lambda: what + ' starts a string')
            c.fns |= set(v.e.fn_used)
    c.floor('transitions outside a string', n, 150)
    c.floor('strings started', starts, 14)
    return zero


def subscribing(c, mod):
    """the registration call stores exactly what it is given"""
    v = Vte(mod)
    e, st = v.e, v.st
    cb, data = e.newpsym('cb', True, None), e.newpsym('data', True, None)
    log = []
    e.on_store = lambda st, o, p, val, size, ins: log.append((o.id, st.const(p.l), size)) if e.objs[o.id].kind != 'alloca' else None
    outs = e.run('tsm_vte_set_osc_cb', [Ptr(v.o.id), PSym(cb), PSym(data)], st)
    c.ob('returns', bool(outs), 'tsm_vte_set_osc_cb', 'tsm_vte_set_osc_cb() never returns')
    for s, _ in outs:
        got = fields(v, s)
        want = [PSym(cb), PSym(data)]
        c.ob('subscribing', all(e.resolve(s, a) == e.resolve(s, b) for a, b in zip(got, want)), 'tsm_vte_set_osc_cb',
             'tsm_vte_set_osc_cb() does not register the function and data it is given')
    at = [(v.o.id, v.off(f), 8) for f in ('osc_cb', 'osc_data')]
    for x in log:
        c.ob('subscribing', x in at, 'tsm_vte_set_osc_cb', 'tsm_vte_set_osc_cb() changes more than the subscription')


def check(Check):
    c = Check('C42', 'proof', RULE)
    mod = load.module('lib')
    size = mod.member('tsm_vte', 'osc_arg')['size']
    c.floor('bytes of the text buffer', size, 16)
    every = list(range(size))
    some = sorted({0, 1, 2, 5, 17, 64} | {u for u in range(size - 6, size)})
    zero = outside(c, mod)

    def jobs(zero):
        out = []
        for lo, hi, k in TEXT:
            out += [('text', lo, hi, k, u, zero) for u in (every if c.thorough or k in (1, 2) and lo != 0x7f else some)]
        for lo, hi in IGNORED:
            out += [('ign', lo, hi, 0, u, zero) for u in (every if c.thorough else some)]
        for lo, hi in ENDS:
            out += [('end', lo, hi, None, u, zero) for u in (every if c.thorough or (lo, hi) in ((7, 7), (0x9c, 0x9c), (0x1b, 0x1b)) else some)]
        return out
    todo = jobs(zero)
    if zero:
        r = Rec()
        pool(r, todo, job)
        if r.n.get('rest of the buffer not zero'):
            zero, todo = False, jobs(False)
    if zero:
        merge(c, r)
    else:
        pool(c, todo, job)
    c.floor('character and length cases', len(todo), 500)
    subscribing(c, mod)
    return c.finish()

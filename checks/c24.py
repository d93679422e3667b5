"""C24: symbols identify character sequences uniquely and losslessly."""
import itertools

from tsa import load
from tsa.engine import *
from tsa.num import *
from .tab import Tab
from .common import Check as _C

RULE = ('histories of appends on a new symbol table are interpreted with arbitrary code points and arbitrary 32-bit symbols; the generic hash '
        'table is replaced by its contract (an exact map that uses the comparison and hash functions the table was given, whose own code is '
        'interpreted); after every step each symbol handed out so far is read back and compared with the sequence appended')
KINDS = ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free', 'vla')


class World:
    def __init__(self, c, mod, oom=False):
        self.c, self.m = c, mod
        e = self.e = Engine(mod)
        e.peel = e.unroll = 64
        e.alloc_fail = oom
        e.trace_alloc = True
        e.split_idx = e.split_len = 200
        e.max_rec = 2
        self.oom = oom
        self.MAX, self.LEN = load.macro('TSM_UCS4_MAX'), load.macro('TSM_UCS4_MAXLEN')
        for n in ('lookup', 'insert', 'remove', 'clear'):
            if 'shl_htable_' + n not in mod.funcs:
                raise ir.IRError('anchor: function shl_htable_%s not defined' % n)
            e.stubs['shl_htable_' + n] = getattr(self, n)
        v = type('V', (), dict(e=e, m=mod))()

        class T(Tab):
            def __init__(self, v, c):
                self.v, self.e, self.c = v, v.e, c
        self.t = T(v, c)
        self.n = 0

    # -- contract of the hash table: st.gh['map'] holds the stored (pointer, hash) pairs
    def fn(self, st, ht, field):
        p = self.e.resolve(st, self.e.load(st, Ptr(ht.o, laddk(ht.l, self.m.member('shl_htable', field)['off'])), ('p',), None))
        return p.name if isinstance(p, Fn) else None

    def call(self, st, x, name, args):
        return self.e.exec_fn(self.m.funcs[name], args, st, x)

    def hashes(self, st, x, ht, obj, h, what):
        name = self.fn(st, ht, 'htable.rehash')
        if not self.c.ob('hash function', name is not None, what, 'the table has no definite hash function'):
            return [st]
        out = []
        for s, r in self.call(st, x, name, [obj, NULL]):
            self.c.ob('equal sequences have equal hashes', isinstance(r, Int) and isinstance(h, Int) and self.t.eq(s, r, h), what,
                      '%s passes a hash that differs from the one the table computes' % what)
            out.append(s)
        return out

    def find(self, st, x, a, what):
        """[(state, index or None)]"""
        e = self.e
        ht, obj, h = e.resolve(st, a[0]), e.resolve(st, a[1]), a[2]
        name = self.fn(st, ht, 'compare')
        if not self.c.ob('comparison function', name is not None, what, 'the table has no definite comparison function'):
            return []
        work, out = [(s, 0) for s in self.hashes(st, x, ht, obj, h, what)], []
        while work:
            s, i = work.pop()
            m = s.gh.get('map', ())
            if i >= len(m):
                out.append((s, None))
                continue
            for s2, r in self.call(s, x, name, [obj, m[i][0]]):
                if isinstance(r, Cond):
                    two = [(s3, v) for v in (1, 0) for s3 in e.assume(s2.clone(), r, bool(v))]
                else:
                    two = [(s3, j) for s3, j in self.t.split(s2, r, [[(0, 0)], None], signed=False)]
                for s3, j in two:
                    if j:
                        self.c.ob('equal sequences have equal hashes', self.t.eq(s3, m[i][1], h), what, '%s looks equal sequences up with another hash' % what)
                        out.append((s3, i))
                    else:
                        work.append((s3, i + 1))
        return out

    def lookup(self, e, st, x, a):
        out = []
        for s, i in self.find(st, x, a, 'shl_htable_lookup'):
            if i is not None:
                q = e.resolve(s, a[3])
                if isinstance(q, Ptr):
                    e.store(s, q, s.gh['map'][i][0], ('p',), None)
            out.append((s, Int(x.ty[1], lc(int(i is not None)))))
        return out

    def insert(self, e, st, x, a):
        out = []
        for s in self.hashes(st, x, e.resolve(st, a[0]), e.resolve(st, a[1]), a[2], 'shl_htable_insert'):
            if self.oom:
                f = s.clone()
                f.gh['oom'] = True
                out.append((f, Int(32, lc(-12))))
            s.gh['map'] = s.gh.get('map', ()) + ((e.resolve(s, a[1]), a[2]),)
            out.append((s, Int(32, lc(0))))
        return out

    def remove(self, e, st, x, a):
        out = []
        for s, i in self.find(st, x, a, 'shl_htable_remove'):
            if i is not None:
                m = s.gh['map']
                q = e.resolve(s, a[3])
                if isinstance(q, Ptr):
                    e.store(s, q, m[i][0], ('p',), None)
                s.gh['map'] = m[:i] + m[i + 1:]
            out.append((s, Int(x.ty[1], lc(int(i is not None)))))
        return out

    def clear(self, e, st, x, a):
        cb = e.resolve(st, a[1])
        sts = [st]
        if isinstance(cb, Fn):
            for p, h in st.gh.get('map', ()):
                sts = [s2 for s in sts for s2, _ in self.call(s, x, cb.name, [p, a[2]])]
        for s in sts:
            s.gh['map'] = ()
        return [(s, None) for s in sts]

    # -- steps
    def new(self):
        """[(state, table)]"""
        e = self.e
        st = e.new_state()
        out = e.newobj('out', 'arg', lc(8), ('p',), 'lazy')
        e.store_const(st, out, 0, NULL, 8)
        got = []
        for s, r in e.run('tsm_symbol_table_new', [Ptr(out.id)], st):
            p = e.resolve(s, e.load_const(s, out, 0, ('p',), 8, None))
            k = s.const(r.l)
            if s.gh.get('oom'):
                self.c.ob('failed creation', k is not None and k != 0 and p == NULL and not self.live(s), 'tsm_symbol_table_new',
                          'a failed creation of a symbol table is not reported or leaks')
                continue
            if self.c.ob('creation', k == 0 and isinstance(p, Ptr), 'tsm_symbol_table_new', 'a symbol table cannot be created'):
                got.append((s, p))
        return got

    def live(self, s):
        return [q[1] for q in s.events() if q[0] == 'alloc' and q[1] not in s.freed]

    def append(self, st, tbl, sym, u):
        return self.e.run('tsm_symbol_append', [tbl, Int(32, sym if isinstance(sym, tuple) else lc(sym)), Int(32, u)], st)

    def read(self, st, tbl, sym):
        """[(state, [values])] of the sequence behind a symbol"""
        e = self.e
        o = e.newobj('sym', 'arg', lc(4), ('i', 32), 'lazy')
        z = e.newobj('size', 'arg', lc(8), ('i', 64), 'lazy')
        st = st.clone()
        e.store_const(st, o, 0, Int(32, sym if isinstance(sym, tuple) else lc(sym)), 4)
        out = []
        for s, r in e.run('tsm_symbol_get', [tbl, Ptr(o.id), Ptr(z.id)], st):
            p = e.resolve(s, r)
            k = s.const(e.load_const(s, z, 0, ('i', 64), 8, None).l)
            if not isinstance(p, Ptr) or k is None or s.const(p.l) is None or k > 20:
                out.append((s, None))
                continue
            out.append((s, [e.load_const(s, e.objs[s.canon(p.o)], s.const(p.l) + 4 * i, ('i', 32), 4, None) for i in range(k)]))
        return out


def cp(w, name, lo=0, hi=None):
    return ls(w.e.S.fresh(32, name, lo, w.MAX if hi is None else hi))


def num(s, r):
    k = s.const(r.l) if isinstance(r, Int) else None
    return None if k is None else k & 0xffffffff


def same_seq(w, s, a, b):
    """True / False / None (undecided) whether two sequences of linear forms are equal on this path"""
    if len(a) != len(b):
        return False
    und = False
    for x, y in zip(a, b):
        d = lsub(x, y)
        if s.prove(d) and s.prove(lscale(d, -1)):
            continue
        if s.prove(laddk(d, -1)) or s.prove(laddk(lscale(d, -1), -1)) or distinct(s, d):
            return False
        und = True
    return None if und else True


def distinct(s, d):
    try:
        t = s.clone()
        return not t.add_eq(d) if hasattr(t, 'add_eq') else False
    except Exception:
        return False


def verify(w, s, tbl, known, what):
    """every symbol known so far reads back as its sequence"""
    key = 'tsm_symbol_append'
    for sym, seq in known:
        for s2, got in w.read(s, tbl, sym):
            ok = got is not None and len(got) == len(seq) and all(isinstance(g, Int) and w.t.eq(s2, g, q) for g, q in zip(got, seq))
            w.c.ob('sequence read back', ok, key, lambda: '%s: symbol %#x no longer stands for the %d characters appended' % (what, sym, len(seq)))


def history(w, plan, what):
    """plan: list of (base, code point): base = a linear form or the index of an earlier step"""
    c, e = w.c, w.e
    key = 'tsm_symbol_append'
    ends = 0
    for s0, tbl in w.new():
        work = [(s0, [], [])]            # state, results per step, [(symbol, sequence)]
        for base, u in plan:
            nxt = []
            for s, res, known in work:
                sym, seq = res[base] if isinstance(base, int) else (base, [base])
                before = len(s.gh.get('map', ()))
                for s2, r in w.append(s, tbl, sym, u):
                    want = seq + [u]
                    k = num(s2, r)
                    grown = len(s2.gh.get('map', ())) - before
                    failed = s2.gh.pop('oom', False)
                    kept = isinstance(r, Int) and (w.t.eq(s2, r, sym))
                    if len(want) > w.LEN or failed:
                        c.ob('unchanged when full or out of memory', kept and grown == 0, key, lambda: '%s: a symbol that cannot grow is changed' % what)
                        verify(w, s2, tbl, known, what)
                        nxt.append((s2, res + [(sym, seq)], known))
                        continue
                    if not c.ob('composed symbols are no code points', k is not None and k > w.MAX, key,
                                lambda: '%s: the composed symbol is %s' % (what, r)):
                        continue
                    for sym2, seq2 in known:
                        q = same_seq(w, s2, want, seq2)
                        if k == sym2:
                            c.ob('one sequence per symbol', q is True, key, lambda: '%s: different sequences share symbol %#x' % (what, k))
                        else:
                            c.ob('one symbol per sequence', q is not True, key, lambda: '%s: the same sequence gets two symbols' % what)
                    kn = known if any(k == q[0] for q in known) else known + [(k, want)]
                    c.ob('table grows only for new sequences', grown == len(kn) - len(known), key, lambda: '%s: %d entries added' % (what, grown))
                    verify(w, s2, tbl, kn, what)
                    nxt.append((s2, res + [(k, want)], kn))
            work = nxt
        for s, res, known in work:
            ends += 1
            release(w, s, tbl, what)
    w.n += ends
    c.ob('histories end', ends > 0 or w.oom, key, lambda: what + ': never returns')
    c.engine(e, KINDS)
    c.fns |= set(e.fn_used)


def release(w, s, tbl, what):
    for s2, _ in w.e.run('tsm_symbol_table_unref', [tbl], s.clone()):
        w.c.ob('table released with all symbols', not w.live(s2), 'tsm_symbol_table_unref', lambda: '%s: %s still allocated after the last reference' % (
            what, [w.e.objs[o].name for o in w.live(s2)][:3]))


def check(Check):
    c = Check('C24', 'other', RULE)
    mod = load.module('lib')
    plans = 0

    def run(what, mk, oom=False):
        nonlocal plans
        w = World(c, mod, oom)
        history(w, mk(w), what)
        plans += 1
        c.cov['end states'] = c.cov.get('end states', 0) + w.n
    run('two appends', lambda w: [(cp(w, 'a'), cp(w, 'b')), (cp(w, 'c'), cp(w, 'd'))])
    run('three appends', lambda w: [(cp(w, 'a'), cp(w, 'b')), (cp(w, 'c'), cp(w, 'd')), (cp(w, 'e'), cp(w, 'f'))])
    run('growing twice', lambda w: [(cp(w, 'a'), cp(w, 'b')), (0, cp(w, 'c')), (cp(w, 'd'), cp(w, 'e')), (2, cp(w, 'f'))])
    run('branches of one symbol', lambda w: [(cp(w, 'a'), cp(w, 'b')), (0, cp(w, 'c')), (0, cp(w, 'd'))])

    def chain(w):
        a = cp(w, 'a')
        return [(a if i == 0 else i - 1, cp(w, 'm%d' % i)) for i in range(w.LEN + 2)]
    run('longest sequence', chain)

    def many(w):
        a = lc(0x41)
        return [(a, lc(0x300 + i)) for i in range(9)] + [(a, lc(0x303)), (3, lc(0x301)), (8, lc(0x302))]
    run('many symbols', many)
    run('extreme code points', lambda w: [(lc(0), lc(0)), (lc(w.MAX), lc(w.MAX)), (0, lc(0)), (lc(0), lc(w.MAX))])
    run('failing allocations', lambda w: [(cp(w, 'a'), cp(w, 'b')), (cp(w, 'c'), cp(w, 'd'))], True)
    run('failing allocations', lambda w: [(lc(0x41), lc(0x300 + i)) for i in range(5)], True)
    run('failing allocations', lambda w: [(lc(0x41), lc(0x300)), (0, lc(0x301)), (lc(0x41), lc(0x301))], True)
    c.floor('histories', plans, 10)
    single(c, mod)
    c.trusted.append('contract of the generic hash table (shl_htable_*): an exact map; its pointer-tagging code is not analysed')
    c.assumptions.append('histories of up to twelve appends')
    return c.finish()


def single(c, mod):
    key = 'tsm_symbol_append'
    w = World(c, mod)
    e = w.e
    for s, tbl in w.new():
        for s1, r1 in w.append(s, tbl, lc(0x61), lc(0x301)):
            known = [(num(s1, r1), [lc(0x61), lc(0x301)])]
            # what is no character is never appended
            for lo, hi in ((w.MAX + 1, w.MAX + 1), (w.MAX + 2, 0xffffffff)):
                for sym in (cp(w, 'sym'), lc(known[0][0])):
                    u = ls(e.S.fresh(32, 'no character', lo, hi))
                    for s2, r in w.append(s1.clone(), tbl, sym, u):
                        c.ob('only characters are appended', w.t.eq(s2, r, sym) and s2.gh.get('map') == s1.gh.get('map'), key,
                             'a value beyond the code points is appended to a symbol')
                        verify(w, s2, tbl, known, 'appending no character')
            # symbols never handed out
            for bad in (known[0][0] + 1, known[0][0] + 1000, 0xffffffff, w.MAX + 1):
                if bad == known[0][0]:
                    continue
                for s2, got in w.read(s1, tbl, bad):
                    c.ob('unknown symbols', got is not None and len(got) == 1 and s2.const(got[0].l) == 0, 'tsm_symbol_get',
                         'a symbol that was never handed out does not read as the default symbol')
                for s2, r in w.append(s1.clone(), tbl, lc(bad), cp(w, 'b')):
                    verify(w, s2, tbl, known, 'appending to an unknown symbol')
            # every code point is its own symbol
            x = cp(w, 'x')
            for s2, got in w.read(s1, tbl, x):
                c.ob('code points', got is not None and len(got) == 1 and w.t.eq(s2, got[0], x), 'tsm_symbol_get', 'a code point does not stand for itself')
            # the width is that of the first character
            asked = []
            y = e.S.fresh(32, 'width', 0, 2)
            e.stubs['tsm_ucs4_get_width'] = lambda e, st, x, a: (asked.append((st, a[0])), [(st, Int(32, ls(y)))])[1]
            for s2, r in e.run('tsm_symbol_get_width', [tbl, Int(32, lc(known[0][0]))], s1.clone()):
                c.ob('width', w.t.eq(s2, r, ls(y)) and len(asked) == 1 and num(*asked[0]) == 0x61, 'tsm_symbol_get_width',
                     'a composed symbol is not as wide as its first character')
    c.engine(e, KINDS)
    # without a table nothing is composed
    a, b = cp(w, 'a', 0, 0xffffffff), cp(w, 'b', 0, 0xffffffff)
    for s2, r in e.run('tsm_symbol_append', [NULL, Int(32, a), Int(32, b)], e.new_state()):
        c.ob('no table', w.t.eq(s2, r, a), key, 'without a table a symbol is changed')
    for lo, hi, own in ((0, w.MAX, True), (w.MAX + 1, 0xffffffff, False)):
        u = ls(e.S.fresh(32, 'value', lo, hi))
        for s2, r in e.run('tsm_symbol_make', [Int(32, u)], e.new_state()):
            c.ob('code points', w.t.eq(s2, r, u) if own else s2.const(r.l) == 0, 'tsm_symbol_make', 'tsm_symbol_make() does not map %s to %s' % (
                ('code points', 'themselves') if own else ('other values', 'the default symbol')))
    # references
    for ref in (0, 1, 2, 7):
        for fn in ('tsm_symbol_table_ref', 'tsm_symbol_table_unref'):
            w = World(c, mod)
            for s, tbl in w.new():
                off = mod.member('tsm_symbol_table', 'ref')['off']
                w.e.store_const(s, w.e.objs[tbl.o], off, Int(64, lc(ref)), 8)
                for s2, _ in w.e.run(fn, [tbl], s):
                    gone = not w.live(s2)
                    if fn.endswith('unref') and ref == 1:
                        c.ob('last reference', gone, fn, 'the last reference does not release the table')
                        continue
                    k = s2.const(w.e.load_const(s2, w.e.objs[tbl.o], off, ('i', 64), 8, None).l) if tbl.o not in s2.freed else None
                    want = 0 if ref == 0 else ref + (1 if fn.endswith('_ref') else -1)
                    c.ob('references counted', k == want and len(w.live(s2)) == 3, fn, '%s with %d references' % (fn, ref))
            c.engine(w.e, KINDS)
    c.fns |= set(e.fn_used)

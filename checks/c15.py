"""C15: reference counts and ownership balance on every path."""
from tsa import load
from tsa.engine import *
from tsa.num import *
from .nest import api_calls, stub_nested
from .screens import *
from .scr import Scr
from . import shapes
from .tab import Tab

RULE = ('histories of create, reference, use and release calls are interpreted from an empty heap through the real constructors and '
        'destructors, with every allocation of every call failing in turn; releases of arbitrary screens and terminals with arbitrary '
        'counts; and every screen operation: nothing is released twice or while referenced, an object goes with its last reference '
        'together with everything it owns, and each terminal takes and drops exactly one reference to its screen.')
KINDS = ('null', 'uaf', 'free', 'uninit', 'undef', 'bounds')


# ---------------------------------------------------------------- histories on real objects
class World:
    def __init__(self, r):
        self.r = r
        self.m = load.module('lib')
        e = self.e = Engine(self.m)
        e.peel = e.unroll = 6000
        e.maxstates = 10 ** 6
        e.trace_alloc = True
        e.split_idx = e.split_len = 200
        e.max_rec = 6
        e.budget = 10 ** 9
        self.slot = {}
        v = type('V', (), dict(e=e, m=self.m))()

        class T(Tab):
            def __init__(self, v, c):
                self.v, self.e, self.c = v, v.e, c
        self.t = T(v, r)
        e.callback = lambda st, x, name, vals: [(st, None)]
        # the application's write callback: any function of the program
        self.cb = PSym(e.newpsym('write_cb', False))
        self.st = e.new_state()
        for n in ('con', 'con2', 'vte', 'vte2'):
            o = self.slot[n] = e.newobj(n, 'arg', lc(8), ('p',), 'lazy')
            e.store_const(self.st, o, 0, NULL, 8)
        self.text = {}
        self.pal = e.newobj('palette', 'opaque', lc(18 * 3), None, 'opaque')
        self.oom_in = None

    def get(self, st, n):
        return self.e.resolve(st, self.e.load_const(st, self.slot[n], 0, ('p',), 8, None))

    def string(self, st, s):
        b = s.encode('latin-1') + b'\0'
        o = self.e.newobj('text', 'arg', lc(len(b)), ('a', len(b), ('i', 8)), 'lazy')
        for i, x in enumerate(b):
            self.e.store_const(st, o, i, Int(8, lc(x)), 1)
        return Ptr(o.id)

    def live(self, st):
        return [q[1] for q in st.events() if q[0] == 'alloc' and q[1] not in st.freed]

    def freed(self, st, p):
        return isinstance(p, Ptr) and p.o in st.freed

    def count(self, st, p, struct):
        o = self.m.member(struct, 'ref')
        v = self.e.load_const(st, self.e.objs[p.o], o['off'], ('i', o['size'] * 8), o['size'], None)
        return st.const(v.l) if isinstance(v, Int) else None


def apply(w, st, op):
    """one call; [(state, text)]"""
    e = w.e
    f, args = op[0], []
    for a in op[1:]:
        if isinstance(a, str) and a[:1] == '&':
            args.append(Ptr(w.slot[a[1:]].id))
        elif isinstance(a, str) and a[:1] == '$':
            args.append(w.get(st, a[1:]))
        elif isinstance(a, str) and a == 'cb':
            args.append(w.cb)
        elif isinstance(a, str) and a == 'pal':
            args.append(Ptr(w.pal.id))
        elif isinstance(a, str):
            args.append(w.string(st, a))
        elif a is None:
            args.append(NULL)
        else:
            args.append(Int(a[0], lc(a[1])))
    return e.run(f, args, st)


SCR = ('tsm_screen_new', '&con', None, None)
VTE = ('tsm_vte_new', '&vte', '$con', 'cb', None, None, None)
VTE2 = ('tsm_vte_new', '&vte2', '$con', 'cb', None, None, None)
SREF, SUN = ('tsm_screen_ref', '$con'), ('tsm_screen_unref', '$con')
VREF, VUN, VUN2 = ('tsm_vte_ref', '$vte'), ('tsm_vte_unref', '$vte'), ('tsm_vte_unref', '$vte2')
PAL = lambda n: ('tsm_vte_set_palette', '$vte', n)
CUS = lambda n: ('tsm_vte_set_custom_palette', '$vte', n)
SIZE = lambda x, y: ('tsm_screen_resize', '$con', (32, x), (32, y))
# (history, index of the call whose allocations fail)
HISTORIES = [
    ([SCR, SUN], 0),
    ([SCR, SREF, SUN, SUN], None),
    ([SCR, SREF, SREF, SUN, SUN, SUN], None),
    ([SCR, VTE, SUN, VUN], 1),
    ([SCR, VTE, VUN, SUN], None),
    ([SCR, VTE, VREF, SUN, VUN, VUN], None),
    ([SCR, VTE, VTE2, VUN, SUN, VUN2], 2),
    ([SCR, VTE, SUN, PAL('solarized'), PAL('base16-dark'), VUN], 3),
    ([SCR, VTE, SUN, PAL('solarized'), PAL('base16-dark'), VUN], 4),
    ([SCR, VTE, SUN, PAL('solarized'), PAL(None), VUN], None),
    ([SCR, VTE, SUN, PAL('custom'), CUS('pal'), CUS('pal'), VUN], 4),
    ([SCR, VTE, SUN, CUS('pal'), PAL('custom'), CUS('pal'), CUS(None), VUN], 5),
    ([SCR, VTE, ('tsm_vte_hard_reset', '$vte'), ('tsm_vte_reset', '$vte'), VUN, SUN], None),
    ([SCR, SIZE(100, 30), SUN], 1),
    ([SCR, SIZE(100, 30), SIZE(20, 5), SIZE(30, 25), SUN], None),
    ([SCR, SIZE(20, 40), SUN], 1),
    ([SCR, ('tsm_screen_set_max_sb', '$con', (32, 3)), ('tsm_screen_scroll_up', '$con', (32, 2)), SUN], 2),
    ([SCR, ('tsm_screen_set_max_sb', '$con', (32, 3)), ('tsm_screen_scroll_up', '$con', (32, 5)),
      ('tsm_screen_set_max_sb', '$con', (32, 1)), ('tsm_screen_clear_sb', '$con'), SUN], None),
    ([SCR, ('tsm_screen_reset', '$con'), ('tsm_screen_set_flags', '$con', (32, 0x40)), ('tsm_screen_reset_flags', '$con', (32, 0x40)), SUN], None),
]
NEW = {'tsm_screen_new': ('con', 'tsm_screen'), 'tsm_vte_new': ('vte', 'tsm_vte')}


def text(ops):
    return ', '.join(o[0].replace('tsm_', '') for o in ops)


def history(r, job):
    ops, bad = job
    w = World(r)
    e = w.e
    # model of the counts: object -> references the application and its terminals hold
    work = [(w.st, {})]
    for i, op in enumerate(ops):
        e.alloc_fail = i == bad
        nxt = []
        what = text(ops[:i + 1])
        for st, refs in work:
            tgt = op[1]
            f = op[0]
            n = tgt[1:]
            if f not in NEW and w.get(st, n) == NULL or f == 'tsm_vte_new' and w.get(st, op[2][1:]) == NULL:
                nxt.append((st, refs))
                continue
            before = set(w.live(st))
            for s, v in apply(w, st.clone(), op):
                failed = i == bad and any(q[0] == 'allocfail' for q in s.events()[len(st.events()):])
                rf = dict(refs)
                ret = s.const(v.l) if isinstance(v, Int) else None
                sign = None if ret is None else ret - (1 << 32) if ret >> 31 & 1 else ret
                if f in NEW:
                    p = w.get(s, n)
                    if failed:
                        r.ob('failure reported', sign is not None and sign < 0, f, '%s: %s does not report a failed allocation' % (what, f))
                        r.ob('failed creation', p == NULL, f, '%s: %s hands out an object although it failed' % (what, f))
                        gone = before - set(w.live(s))
                        r.ob('failed creation', not gone, f, '%s: a failed %s releases %s' % (what, f, [e.objs[o].name for o in gone]))
                        left = set(w.live(s)) - before
                        r.ob('failed creation', not left, f, '%s: a failed %s keeps %s' % (what, f, [e.objs[o].name for o in left][:3]))
                    else:
                        ok = r.ob('creation', sign == 0 and isinstance(p, Ptr), f, '%s: %s fails although memory is available' % (what, f))
                        if not ok:
                            continue
                        rf[p.o] = 1
                        if f == 'tsm_vte_new':
                            q = w.get(s, op[2][1:])
                            rf[q.o] = rf.get(q.o, 0) + 1
                            rf[('holds', p.o)] = q.o
                elif f.endswith('_ref'):
                    rf[w.get(s, n).o] += 1
                elif f.endswith('_unref'):
                    p = w.get(s, n)
                    todo = [p.o]
                    while todo:
                        o = todo.pop()
                        rf[o] -= 1
                        if not rf[o] and ('holds', o) in rf:
                            todo.append(rf[('holds', o)])
                elif isinstance(v, Int) and failed and f in ('tsm_screen_resize', 'tsm_vte_set_palette', 'tsm_vte_set_custom_palette'):
                    r.ob('failure reported', sign is not None and sign < 0, f, '%s: %s does not report a failed allocation' % (what, f))
                for o, k in rf.items():
                    if isinstance(o, tuple):
                        continue
                    nm = e.objs[o].name
                    if k == 0:
                        r.ob('released with the last reference', o in s.freed, f, '%s: %s is not released with its last reference' % (what, nm))
                    else:
                        if r.ob('kept while referenced', o not in s.freed, f, '%s: %s is released while %d references to it are held' % (what, nm, k)):
                            for st_ in ('tsm_screen', 'tsm_vte'):
                                if st_ + '_new' in nm:
                                    c = w.count(s, Ptr(o), st_)
                                    r.ob('count', c == k, f, '%s: the count of %s is %s with %d references held' % (what, nm, c, k))
                if not any(not isinstance(o, tuple) and k for o, k in rf.items()):
                    left = w.live(s)
                    r.ob('everything released', not left, f, '%s: %s is never released' % (what, sorted({e.objs[o].name for o in left})[:4]))
                r.count('history steps')
                # an object that went away is forgotten by its owner
                for sl in ('con', 'vte', 'vte2'):
                    p = w.get(s, sl)
                    if isinstance(p, Ptr) and p.o in s.freed:
                        e.store_const(s, w.slot[sl], 0, NULL, 8)
                nxt.append((s, rf))
        r.ob('returns', bool(nxt) or not work, op[0], '%s never returns' % what)
        work = nxt
    r.count('histories')
    r.engine(e, KINDS)


# ---------------------------------------------------------------- arbitrary objects
def unref_screen(r, job):
    """releasing an arbitrary screen"""
    shape, refs = job
    mod = load.module('lib')
    s = Scr(mod, **shape)
    s.start(r)
    e = s.e
    dropped = []
    e.stubs['tsm_symbol_table_unref'] = lambda e, st, x, a: [(st.ev(('symunref', e.resolve(st, a[0]))) or st, None)]
    d = mod.member('tsm_screen', 'ref')
    if refs == 2:
        x = Int(64, ls(e.S.fresh(64, 'ref', 2, 1 << 40)))
    else:
        x = Int(64, lc(refs))
    s.seti('ref', x, d['size'])
    owned = s.reach(s.st, [(s.o.id, 'screen')])
    owned = {o for o in owned if e.objs[o].kind == 'heap'}
    outs = e.run('tsm_screen_unref', [s.p], s.st)
    what = 'releasing a screen of %s with %s references' % (shape, {0: 'no', 1: 'one', 2: 'several'}[refs])
    r.ob('returns', bool(outs), 'tsm_screen_unref', what + ' never returns')
    for st, _ in outs:
        ev = [q for q in st.events() if q[0] == 'symunref']
        if refs == 1:
            left = [e.objs[o].name for o in owned if o not in st.freed]
            r.ob('everything released', not left, 'tsm_screen_unref', '%s keeps %s' % (what, left[:4]))
            r.ob('symbols released', len(ev) == 1 and ev[0][1] == Ptr(s.symtab.id), 'tsm_screen_unref', '%s drops %d references to its symbols' % (what, len(ev)))
        else:
            gone = [e.objs[o].name for o in owned if o in st.freed]
            r.ob('kept while referenced', not gone and not ev, 'tsm_screen_unref', '%s releases %s' % (what, gone[:4] or 'its symbols'))
            if not gone:
                y = s.geti(st, 'ref', 8)
                r.ob('count', s.t.eq(st, y, Int(64, laddk(x.l, -1)) if refs else x), 'tsm_screen_unref', what + ' does not lower the count by one')
    r.engine(e, KINDS)
    r.count('releases')


def unref_vte(r, refs):
    """releasing an arbitrary terminal: its screen, decoder and palette storage go with it"""
    from .inputs import terminal
    mod = load.module('lib')
    v, t, st = terminal(r, mod, None, 0, 0)
    e = v.e
    e.trace_alloc = True
    calls = []
    e.stubs['tsm_screen_unref'] = lambda e, st, x, a: [(st.ev(('unref', e.resolve(st, a[0]))) or st, None)]
    own = []
    v.o.kind = 'heap'
    v.mach.kind = 'heap'
    names = e.newobj('palette name', 'heap', lc(16), ('a', 16, ('i', 8)), 'lazy')
    stor = e.newobj('custom palette', 'heap', lc(54), ('a', 54, ('i', 8)), 'lazy')
    v.set(st, 'palette_name', Ptr(names.id), 8)
    v.set(st, 'custom_palette_storage', Ptr(stor.id), 8)
    x = Int(64, ls(e.S.fresh(64, 'ref', 2, 1 << 40))) if refs == 2 else Int(64, lc(refs))
    v.set(st, 'ref', x, 8)
    owned = [v.o.id, v.mach.id, names.id, stor.id]
    outs = e.run('tsm_vte_unref', [v.p], st)
    what = 'releasing a terminal with %s references' % {0: 'no', 1: 'one', 2: 'several'}[refs]
    r.ob('returns', bool(outs), 'tsm_vte_unref', what + ' never returns')
    for s, _ in outs:
        ev = [q for q in s.events() if q[0] == 'unref']
        gone = [e.objs[o].name for o in owned if o in s.freed]
        if refs == 1:
            r.ob('everything released', len(gone) == 4, 'tsm_vte_unref', '%s releases only %s' % (what, gone))
            r.ob('screen released', len(ev) == 1 and ev[0][1] == Ptr(v.con.id), 'tsm_vte_unref', '%s drops %d references to its screen' % (what, len(ev)))
        else:
            r.ob('kept while referenced', not gone and not ev, 'tsm_vte_unref', '%s releases %s' % (what, gone or 'its screen'))
            if not gone:
                r.ob('count', t.eq(s, v.get(s, 'ref', 64), Int(64, laddk(x.l, -1)) if refs else x), 'tsm_vte_unref', what + ' does not lower the count by one')
    r.engine(e, KINDS)
    r.count('releases')


def ref_any(r, fn):
    mod = load.module('lib')
    e = Engine(mod)
    st = e.new_state()
    sn = 'tsm_screen' if 'screen' in fn else 'tsm_vte'
    o = e.newobj('object', 'heap', lc(mod.sizeof(('s', 'struct.' + sn))), ('s', 'struct.' + sn), 'lazy', sname=sn)
    d = mod.member(sn, 'ref')
    x = Int(d['size'] * 8, ls(e.S.fresh(d['size'] * 8, 'ref', 1, 1 << 40)))
    e.store_const(st, o, d['off'], x, d['size'])
    wr = []
    e.on_store = lambda st, ob, p, v, size, ins: wr.append((ob.id, st.const(p.l))) if ob.id == o.id else None
    for s, _ in e.run(fn, [Ptr(o.id)], st):
        y = e.load_const(s, o, d['off'], ('i', d['size'] * 8), d['size'], None)
        dd = lsub(y.l, laddk(x.l, 1))
        r.ob('count', s.prove(dd) and s.prove(lscale(dd, -1)), fn, fn + ' does not raise the count by one')
        r.ob('only the count', all(off == d['off'] for _, off in wr), fn, fn + ' changes more than the count')
    r.engine(e, KINDS)


def terminal_calls(r, fn):
    """calls on a terminal keep what they allocate balanced"""
    from .inputs import terminal, pin_flags
    mod = load.module('lib')
    mk = dict(api_calls(mod))[fn]
    v, t, st = terminal(r, mod, None, 0, 0)
    pin_flags(v, st, PREPEND_ESCAPE=0)
    stub_nested(v, t)
    v.e.trace_alloc = True
    for s, _ in v.e.run(fn, [v.p] + mk(v.e, v), st):
        left = [q[1] for q in s.events() if q[0] == 'alloc' and q[1] not in s.freed]
        r.ob('nothing left behind', not left, fn, '%s allocates memory that nobody owns' % fn)
        r.ob('references to the screen', not any(q[0] == 'call' and q[1] in ('tsm_screen_ref', 'tsm_screen_unref') for q in s.events()), fn,
             '%s changes the references to the screen' % fn)
    r.engine(v.e, ('free', 'uaf'))
    r.count('calls on a terminal')


def more(c):
    mod = load.module('lib')
    th = c.thorough
    pool(c, HISTORIES, history)
    c.floor('histories', c.cov.get('histories', 0), len(HISTORIES))
    jobs = [(s, n) for n in (0, 1, 2) for s in
            (dict(W=1, H=1), dict(W=2, H=2, sb=2), dict(W=3, H=2, sb=3, sbpos=1, alt=1), dict(W=2, H=3, more=2, extra=1, sb=1),
             dict(W=2, H=2, sb=2, sel=(('sb', 0), ('y', 1))))]
    pool(c, jobs, unref_screen)
    pool(c, [0, 1, 2], unref_vte)
    pool(c, ['tsm_screen_ref', 'tsm_vte_ref'], ref_any)
    pool(c, [n for n, _ in api_calls(mod)], terminal_calls)
    c.floor('releases', c.cov.get('releases', 0), len(jobs) + 3)


ALLOC = ('resize', 'scroll_up', 'newline', 'write', 'move_down', 'set_max_sb', 'clear_sb', 'delete_lines', 'insert_lines', 'reset', 'scroll_down')


def check(Check):
    th = Check('C15', 'other', '').thorough
    base = shapes.everything(th, True) + shapes.history(th) + shapes.writes(th)
    j = [(o, dict(s)) for o, s in base if o in ALLOC] + [(o, dict(s, oom=True)) for o, s in base if o in ('resize', 'scroll_up', 'set_max_sb', 'clear_sb') and s['H'] < 100]
    return run('C15', RULE, j, ('heap', 'dangling'), ('null', 'uaf', 'free'), least=len(j), also=more)

"""C13: a reset gives every terminal and screen setting the value it has after creation."""
import re

from .c23 import World, storage, string
from .inputs import pin_flags
from .c32 import mod_flag
from .screens import *
from . import shapes

RULE = ('the values of all terminal fields after tsm_vte_new() are computed abstractly; after a reset from an arbitrary state each setting '
        'that is not API configuration must have the same value, the screen calls made must amount to a new screen, and '
        'tsm_screen_reset() from an arbitrary screen must give the flags, margins, tab stops and active buffer of a new screen')
# kept across a reset: what the API configures, and parser scratch that is cleared where a sequence starts
CONFIG = ('ref', 'llog', 'llog_data', 'con', 'write_cb', 'data', 'palette_name', 'backspace_sends_delete', 'osc_cb', 'osc_data',
          'mouse_cb', 'mouse_data', 'custom_palette_storage', 'palette', 'def_attr')
ATTR = ('cattr', 'saved_state.cattr')


def describe(mod, w, t, st, o, fields):
    """{field: token} independent of the object's identity"""
    e = w.e
    out = {}
    for f in fields:
        n, off, size, kind, bit = f
        x = e.load(st, Ptr(o, lc(off)), ('p',) if kind == 'ptr' else ('i', size * 8), None)
        if kind == 'ptr':
            x = e.resolve(st, x)
            if x == NULL:
                out[n] = 'nothing'
            elif isinstance(x, Ptr):
                k = st.const(x.l)
                if x.o == o:
                    out[n] = ('own', k)
                else:
                    out[n] = (e.objs[x.o].name, k)
            else:
                out[n] = None
        else:
            if kind == 'bit':
                b = e.bits(st, x)[bit]
                x = b
                k = b if isinstance(b, int) else None
            else:
                k = st.const(x.l) if isinstance(x, Int) else None
                k = None if k is None else k & ((1 << size * 8) - 1)
            out[n] = k if k is not None else ('=', n, x)
    return out


class Screen:
    """what a sequence of screen calls amounts to, on an arbitrary screen"""

    def __init__(self, t, v):
        self.t, self.v = t, v
        self.flags = {}                 # known bits
        self.all = False                # all other bits known to be 0
        self.margins = self.tabs = self.shown = self.erased = self.history = self.home = self.attr = False
        self.other = []

    def bit(self, n):
        f = flag(n)
        return self.flags.get(f, 0 if self.all else None)

    def apply(self, st, a):
        t, name, args = self.t, a[1], a[2]
        con = lambda i: st.const(args[i].l) if i < len(args) and isinstance(args[i], Int) else None
        name = name[len('tsm_screen_'):]
        if name == 'reset':
            self.flags, self.all = {}, True
            self.margins = self.tabs = self.shown = True
        elif name in ('set_flags', 'reset_flags'):
            k = con(0)
            if k is None:
                self.flags, self.all = {}, False
                self.shown = False
                return
            for i in range(32):
                if k >> i & 1:
                    self.flags[1 << i] = int(name == 'set_flags')
            if k & flag('ALTERNATE'):
                self.shown = name == 'reset_flags'
        elif name == 'set_def_attr':
            p = t.e.resolve(st, args[0])
            k = st.const(p.l) if isinstance(p, Ptr) and p.o == self.v.o.id else None
            self.attr = k == self.v.off('def_attr') or k is not None and k == self.v.off('cattr') and 'cattr' or False
        elif name == 'erase_screen':
            self.erased = self.attr if con(0) == 0 and self.shown and self.bit('ALTERNATE') == 0 else self.erased
            self.erased_at = None
        elif name == 'clear_sb':
            self.history = True
        elif name == 'move_to':
            self.home = con(0) == 0 and con(1) == 0 and (self.margins or self.bit('REL_ORIGIN') == 0)
        elif name in ('move_line_home',):
            pass
        elif name in ('set_margins',):
            self.margins = con(0) == 0 and con(1) == 0
        elif name in ('reset_tabstop', 'set_tabstop', 'reset_all_tabstops'):
            self.tabs = False
        elif re.match(r'move_|tab_|newline|write|scroll_|insert_|delete_', name):
            self.home = self.erased = False
            self.history = self.history and name != 'write'
        elif name.startswith(('get_', 'sb_', 'selection_', 'inc_age', 'ref', 'unref', 'set_max_sb')):
            pass
        else:
            self.other.append(name)


def made(c, mod):
    """(world, state, object, description) after tsm_vte_new()"""
    w = World(mod, palette=False)
    e, st = w.e, w.st
    out = e.newobj('out', 'arg', lc(8), ('p',), 'lazy')
    con = e.newobj('screen', 'opaque', None, None, 'opaque')
    cb = PSym(e.newpsym('write_cb', False))
    got = []
    res = e.run('tsm_vte_new', [Ptr(out.id), Ptr(con.id), cb, PSym(e.newpsym('data', True)), NULL, NULL], st)
    for s, r in res:
        if e.norm_s(s, r) == lc(0):
            p = e.resolve(s, e.load_const(s, out, 0, ('p',), 8, None))
            if isinstance(p, Ptr):
                got.append((s, p.o))
    c.fns |= set(e.fn_used)
    c.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free'))
    c.ob('the constructor succeeds', bool(got), 'tsm_vte_new', 'tsm_vte_new() never succeeds')
    return w, got


def screen_calls(w, s):
    t = Tab(w.v, None)
    return [a for a in t.acts(s) if a[0] == 'api']


def machine(mod, e, st, o):
    """token for the collected part of a character"""
    q = e.resolve(st, e.load(st, Ptr(o, lc(mod.member('tsm_vte', 'mach')['off'])), ('p',), None))
    if not isinstance(q, Ptr):
        return None
    x = e.load(st, Ptr(q.o, lc(mod.member('tsm_utf8_mach', 'state')['off'])), ('i', 32), None)
    return st.const(x.l) if isinstance(x, Int) else None


def check(Check):
    c = Check('C13', 'other', RULE)
    mod = load.module('lib')
    w0, new = made(c, mod)
    t0 = Tab(w0.v, c)
    fields = t0.fields + [('state', mod.member('tsm_vte', 'state')['off'], 4, 'int', 0)]
    set_ = [f for f in fields if f[0].split('.')[0] not in CONFIG]
    c.floor('settings', len(set_), 40)
    ref = {}
    for s, o in new:
        d = describe(mod, w0, t0, s, o, fields)
        m = machine(mod, w0.e, s, o)
        c.ob('decoder starts empty', m is not None, 'tsm_vte_new', 'the decoder of a new terminal is not initialised')
        for f in set_:
            n = f[0]
            a = next((x for x in ATTR if n.startswith(x + '.')), None)
            # colours: relative to the default attributes of the same terminal
            x, y = d[n], d.get('def_attr' + n[len(a):]) if a else None
            tok = 'default' if a and y is not None and x == y else x
            if a and tok != 'default' and isinstance(x, tuple) and isinstance(y, tuple):
                tok = 'default' if t0.same(s, x[2], y[2]) else x
            c.ob('defined after creation', tok is not None, n, 'a new terminal has no definite %s (%s)' % (n, x))
            c.ob('defined after creation', ref.setdefault(n, tok) == tok, n, 'a new terminal has no definite %s' % n)
        ref['mach'] = m
        scr = Screen(t0, w0.v)
        scr.v = type('V', (), dict(o=w0.e.objs[o], off=lambda self, n: mod.member('tsm_vte', n)['off']))()
        for a in screen_calls(w0, s):
            if a[1] not in ('tsm_screen_ref',):
                scr.apply(s, a)
        judge_screen(c, scr, 'tsm_vte_new', home=False, erased=True, history=False)
    # resets from an arbitrary state
    for what, fn, pre in (('tsm_vte_hard_reset', 'tsm_vte_hard_reset', None), ('tsm_vte_reset', 'tsm_vte_reset', None),
                          ('ESC c', None, '\x1bc'), ('CSI ! p', None, '\x1b[!p')):
        for direct in (0, 1):
            w = World(mod)
            v, e, st = w.v, w.e, w.st
            t = Tab(v, c)
            for f in t.fields:
                if f[0].startswith('def_attr.') and f[3] == 'bit':
                    x = e.load(st, Ptr(v.o.id, lc(f[1])), ('i', 8), None)
                    b = list(e.bits(st, x))
                    b[f[4]] = 0
                    e.store_const(st, v.o, f[1], e.from_bits(st, b, 8), 1)
            if direct:
                # default colours that are no palette entries
                for p in 'fb':
                    v.set(st, 'def_attr.%sccode' % p, Int(8, lc(-1)), 1)
                    for ch in 'rgb':
                        v.set(st, 'def_attr.' + p + ch, Int(8, ls(e.S.fresh(8, 'default ' + p + ch))), 1)
            if pre:
                sequence(v, pre)
                x = e.S.fresh(32, 'state')
                st.set_dom(x, ((0, STATES(mod) - 1),))
                v.set(st, 'state', Int(32, ls(x)))
                st.set_dom(v.get(st, 'osc_len').l[1][0][0], ((0, 127),))
                b = list(e.bits(st, v.get(st, 'flags')))
                for n in ('8BIT_MODE', '7BIT_MODE', 'PREPEND_ESCAPE'):
                    b[mod_flag(n).bit_length() - 1] = 0
                v.set(st, 'flags', e.from_bits(st, b, 32))
                v.setc(st, 'parse_cnt', 0, 64)
            init = t.initial()
            outs = v.run_char(st, len(pre)) if pre else e.run(fn, [v.p], st)
            c.fns |= set(e.fn_used)
            c.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free'))
            c.ob('returns', bool(outs), what, '%s never returns' % what)
            for s, r in outs:
                d = describe(mod, w, t, s, v.o.id, t.fields + [fields[-1]])
                c.cov['reset end states'] = c.cov.get('reset end states', 0) + 1
                for f in set_:
                    n = f[0]
                    want, got = ref[n], d[n]
                    if want == 'default':
                        a = next(x for x in ATTR if n.startswith(x + '.'))
                        g = 'def_attr' + n[len(a):]
                        f2 = next(x for x in t.fields if x[0] == g)
                        if f[3] == 'bit':
                            ok = got == d[g]
                        else:
                            ok = t.same(s, t.load(s, f), t.load(s, f2))
                    else:
                        ok = got == want
                    c.ob('setting restored', ok, '%s:%s' % (what, n), lambda: '%s leaves %s = %s where a new terminal has %s' % (
                        what, n, show(got), show(want)))
                for f in t.fields:
                    if f[0].split('.')[0] in CONFIG and f[0] not in ('con',):
                        ok = t.same(s, t.load(s, f), init[f[0]])
                        c.ob('configuration kept', ok, '%s:%s' % (what, f[0]), lambda: '%s changes %s' % (what, f[0]))
                if not pre:
                    m = machine(mod, e, s, v.o.id)
                    c.ob('setting restored', m == ref['mach'], what + ':mach', lambda: '%s keeps part of a multi-byte character (%s)' % (what, m))
                scr = Screen(t, v)
                for a in screen_calls(w, s):
                    scr.apply(s, a)
                hard = what in ('tsm_vte_hard_reset', 'ESC c')
                judge_screen(c, scr, what, hard, hard, hard)
    c.floor('settings compared', c.cov.get('reset end states', 0) * len(set_), 300)
    default_attr_flags(c, mod)
    screen(c, mod)
    return c.finish()


def STATES(mod):
    return mod.enum('STATE_NUM')


def sequence(v, text):
    """the decoder delivers the characters of `text`, one per byte"""
    e = v.e
    v.cut_decoder()

    def get(e, st, x, a):
        k = st.gh.get('nchar', 0)
        st.gh['nchar'] = k + 1
        return [(st, Int(32, lc(ord(text[k]))))]
    e.stubs['tsm_utf8_mach_get'] = get


def show(x):
    return x if not isinstance(x, tuple) or len(x) < 3 else 'its old value' if x[0] == '=' else x


def judge_screen(c, s, what, home, erased, history):
    on = [f for f, x in s.flags.items() if x != 0]
    c.ob('screen modes', s.all and on == [flag('AUTO_WRAP')] and s.flags[on[0]] == 1, what, lambda: '%s does not leave exactly auto-wrap set '
         'on the screen (set: %s)' % (what, [hex(f) for f in on] if s.all else 'others unknown'))
    c.ob('screen settings', s.margins and s.tabs and s.shown, what, lambda: '%s does not reset %s of the screen' % (what, ', '.join(
        n for n, x in (('the scroll region', s.margins), ('the tab stops', s.tabs), ('the buffer shown', s.shown)) if not x)))
    c.ob('screen settings', bool(s.attr), what, lambda: '%s does not reset the attributes of erased cells' % what)
    c.ob('only known screen calls', not s.other, what, lambda: '%s calls %s' % (what, s.other))
    if erased:
        c.ob('screen emptied', bool(s.erased), what, lambda: '%s does not erase the main screen with the default attributes' % what)
    if history:
        c.ob('screen emptied', s.history, what, lambda: '%s keeps the scrollback' % what)
    if home:
        c.ob('cursor home', s.home, what, lambda: '%s does not move the cursor to the first cell' % what)


def default_attr_flags(c, mod):
    """the default attributes have no flags on any path: they are written with their bits only by the constructor"""
    from .nest import api_calls
    calls = [(fn, mk) for fn, mk in api_calls(mod)]
    calls += [('tsm_vte_set_palette', lambda e, v, n=n: [string(v.w, v.w.st, n)]) for n in ('vga', 'nothing')]
    calls += [('tsm_vte_set_custom_palette', lambda e, v: [storage(v.w, v.w.st)])]
    n = 0
    for fn, mk in calls:
        w = World(mod)
        v = w.v
        v.w = w
        if 'palette' in fn:
            v.set(w.st, 'custom_palette_storage', NULL, 8)
            v.set(w.st, 'palette_name', NULL, 8)
        pin_flags(v, w.st, SEND_RECEIVE_MODE=1, PREPEND_ESCAPE=0)
        args = mk(v.e, v)
        t = Tab(v, c)
        init = t.initial()
        for s, _ in v.e.run(fn, [v.p] + args, w.st):
            for f in t.fields:
                if f[0].startswith('def_attr.') and f[3] == 'bit':
                    b0, b1 = v.e.bits(s, init[f[0]])[f[4]], v.e.bits(s, t.load(s, f))[f[4]]
                    b0, b1 = [s.bit(*x) if isinstance(x, tuple) else x for x in (b0, b1)]
                    c.ob('default attributes have no flags', b0 == b1, fn, '%s writes the attribute flags of the default attributes' % fn)
        c.fns |= set(v.e.fn_used)
        n += 1
    c.floor('public calls', n, 5)


def new_screen(c, mod):
    """(engine, [(state, screen)]) after tsm_screen_new()"""
    e = VteEngine(mod)
    e.peel = e.unroll = 4000
    e.split_idx = e.split_len = 200
    e.alloc_fail = False
    e.trace_alloc = True
    st = e.new_state()
    out = e.newobj('out', 'arg', lc(8), ('p',), 'lazy')
    done = []
    tab = e.newobj('symbols', 'opaque', None, None, 'opaque')

    def symbols(e, st, x, a):
        e.store(st, e.resolve(st, a[0]), Ptr(tab.id), ('p',), None)
        return [(st, Int(32, lc(0)))]
    e.stubs['tsm_symbol_table_new'] = symbols
    for s, r in e.run('tsm_screen_new', [Ptr(out.id), NULL, NULL], st):
        p = e.resolve(s, e.load_const(s, out, 0, ('p',), 8, None))
        if e.norm_s(s, r) == lc(0) and isinstance(p, Ptr):
            done.append((s, p))
    c.fns |= set(e.fn_used)
    c.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free'))
    c.ob('the constructor succeeds', bool(done), 'tsm_screen_new', 'tsm_screen_new() never succeeds')
    return e, done


def screen(c, mod):
    """tsm_screen_new() and tsm_screen_reset()"""
    e, done = new_screen(c, mod)
    off = {n: d['off'] for n, d in mod.members('tsm_screen').items()}
    tabs = None
    for s, p in done:
        o = e.objs[p.o]
        num = lambda n, z=4: s.const(e.load_const(s, o, off[n], ('i', 8 * z), z, None).l)
        ptr = lambda n: e.resolve(s, e.load_const(s, o, off[n], ('p',), 8, None))
        W, H = num('size_x'), num('size_y')
        ok = all(num(n) == 0 for n in ('flags', 'margin_top', 'cursor_x', 'cursor_y', 'opts', 'sb_count', 'sb_max')) and num('margin_bottom') == H - 1
        c.ob('new screen', W and H and ok, 'tsm_screen_new', 'a new screen does not have neutral settings')
        c.ob('new screen', ptr('lines') == ptr('main_lines') and all(ptr(n) == NULL for n in ('sb_first', 'sb_last', 'sb_pos')), 'tsm_screen_new',
             'a new screen does not show the main buffer without history')
        r = e.objs[ptr('tab_ruler').o]
        tabs = [s.const(e.load_const(s, r, i, ('i', 8), 1, None).l) for i in range(W)]
        blank = True
        for which in ('main_lines', 'alt_lines'):
            q = e.objs[ptr(which).o]
            for y in range(H):
                l = e.resolve(s, e.load_const(s, q, 8 * y, ('p',), 8, None))
                cells = e.resolve(s, e.load_const(s, e.objs[l.o], mod.member('line', 'cells')['off'], ('p',), 8, None))
                for x in range(W):
                    v = e.load_const(s, e.objs[cells.o], x * mod.sizeof(('s', 'struct.cell')), ('i', 32), 4, None)
                    blank = blank and isinstance(v, Int) and s.const(v.l) == 0
        c.ob('new screen', blank, 'tsm_screen_new', 'a new screen is not empty')
    c.floor('tab stops of a new screen', len(tabs or ()), 80)
    shp = [s for o, s in shapes.flagops() if o == 'reset']
    for W in (1, 2, 8, 9, 17):
        for H, mt, mb in ((1, 0, 0), (3, 1, 1), (3, 1, 2), (4, 0, 2)):
            for alt in (0, 1):
                shp.append(dict(W=W, H=H, mt=mt, mb=mb, cx=W - (W + H) % 2, cy=H - 1, alt=alt, more=W % 2, sb=H % 3))
    pool(c, shp, lambda r, x: reset(r, x, tabs))
    c.floor('screens reset', c.cov.get('screens reset', 0), len(shp))


def reset(r, shape, tabs):
    mod = load.module('lib')
    s = Scr(mod, **shape)
    s.start(r)
    e, st = s.e, s.st
    before = st.clone()
    what = 'tsm_screen_reset() on %s' % shape
    key = 'tsm_screen_reset'
    outs = s.run('tsm_screen_reset', [])
    r.engine(e, ('null', 'uaf', 'bounds', 'uninit', 'undef', 'free'))
    r.count('screens reset')
    r.ob('returns', bool(outs), key, what)
    for s2, _ in outs:
        num = lambda n: s.num(s2, n)
        r.ob('screen settings', num('flags') == 0, key, lambda: '%s keeps screen modes' % what)
        r.ob('screen settings', num('margin_top') == 0 and num('margin_bottom') == s.H - 1, key, lambda: '%s keeps the scroll region' % what)
        r.ob('screen settings', s.ptr(s2, 'lines') == s.ptr(s2, 'main_lines') == Ptr(s.main[0].id), key, lambda: '%s keeps the alternate screen' % what)
        p = s.ptr(s2, 'tab_ruler')
        ok = isinstance(p, Ptr)
        for i in range(s.W if ok else 0):
            x = e.load_const(s2, e.objs[p.o], i, ('i', 8), 1, None)
            ok = ok and isinstance(x, Int) and s2.const(x.l) == tabs[i]
        r.ob('screen settings', ok, key, lambda: '%s does not set the tab stops of a new screen' % what)
        same = num('size_x') == s.W and num('size_y') == s.H and num('cursor_x') == s.cx and num('cursor_y') == s.cy and num('sb_count') == s.nsb
        r.ob('nothing else', same, key, lambda: '%s changes the size, cursor or history' % what)

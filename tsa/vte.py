"""Abstract model of a terminal object (struct tsm_vte) sitting on an opaque screen.

The analysed code is everything in the library except the screen layer and the decoder calls that a check
chooses to cut: calls into the screen become events, so a check can compare the sequence of screen
operations with its specification on every abstract path."""
from .engine import *
from . import models

GETTERS = {'tsm_screen_get_cursor_x', 'tsm_screen_get_cursor_y', 'tsm_screen_get_width', 'tsm_screen_get_height',
           'tsm_screen_get_flags', 'tsm_screen_get_def_attr'}


# screen calls that move neither the cursor nor the screen edges
STILL = {'tsm_screen_set_flags', 'tsm_screen_reset_flags', 'tsm_screen_set_def_attr', 'tsm_screen_set_tabstop',
         'tsm_screen_reset_tabstop', 'tsm_screen_reset_all_tabstops', 'tsm_screen_erase_screen', 'tsm_screen_clear_sb'}


class VteEngine(Engine):
    snap = ('write_cb', 'osc_cb')

    def callback(self, st, x, name, vals):
        data = None
        if name in self.snap and len(vals) >= 3:
            data = self.snapshot(st, vals[1], vals[2])
        st.ev(('cb', name, tuple(vals), x, data))
        return [(st, self.unk(st, x.ty, name + '()'))]

    def snapshot(self, st, p, n):
        """content of the (pointer, length) pair: tuple of byte values / ('fmt', pieces, len) / None"""
        k = self.norm_u(st, n)
        f = models.fmt_marker(self, st, p)
        if f is not None:
            return ('fmt', f[1], f[2] == k)
        p = self.resolve(st, p)
        k = st.const(k)
        if k is None or not isinstance(p, Ptr) or k > 256:
            return None
        off = st.const(p.l)
        if off is None:
            return None
        o = self.objs[st.canon(p.o)]
        out = []
        for i in range(k):
            if o.init == 'opaque' or o.size is not None and not st.prove(laddk(o.size, -(off + i + 1))):
                return None
            v = self.load_const(st, o, off + i, ('i', 8), 1, None)
            if not isinstance(v, Int):
                return None
            c = st.const(v.l)
            out.append(c & 255 if c is not None else v)
        return tuple(out)


class Vte:
    """one abstract terminal: every field arbitrary unless pinned"""

    def __init__(self, mod, eng=None, stubs=True, echo_stub=False, nullable_cb=True, write_name='write_cb'):
        self.m = mod
        e = self.e = eng or VteEngine(mod)
        self.ty = ('s', 'struct.tsm_vte')
        self.size = mod.sizeof(self.ty)
        self.pin = {}
        self.st = e.new_state()
        self.o = e.newobj('vte', 'arg', lc(self.size), self.ty, 'lazy', sname='tsm_vte')
        self.con = e.newobj('screen', 'opaque', None, None, 'opaque')
        self.mach = e.newobj('utf8_mach', 'arg', lc(mod.sizeof(('s', 'struct.tsm_utf8_mach'))),
                             ('s', 'struct.tsm_utf8_mach'), 'lazy', sname='tsm_utf8_mach')
        self.o.initval = self.initval
        self.p = Ptr(self.o.id)
        self.optional = {'osc_cb', 'mouse_cb'} if nullable_cb else set()
        if stubs:
            self.stub_screen()

    def initval(self, e, st, o, off, ty):
        n = e.m.member_at('tsm_vte', off)
        if n in self.pin:
            v = self.pin[n]
            return v(e, st) if callable(v) else v
        if n == 'con':
            return Ptr(self.con.id)
        if n == 'mach':
            return Ptr(self.mach.id)
        if n in ('write_cb', 'osc_cb', 'mouse_cb'):
            return PSym(e.newpsym(n, n in self.optional))
        base = n.split('.')[-1]
        if e.m.member('tsm_vte', n)['di'].get('name') == '_Bool':
            return Int(8, ls(e.memo.setdefault(('bool', o.id, n), e.S.fresh(8, n, 0, 1))))
        if base in ('gl', 'gr'):
            s = e.S.fresh(2, n)
            return Ptr(o.id, (self.off('g0'), ((s, 8),)))
        if base in ('glt', 'grt'):
            def mk(e, st, o=o, n=n):
                s = e.memo.setdefault(('gsel', o.id, n), e.S.fresh(2, n))
                return Ptr(o.id, (self.off('g0'), ((s, 8),)))
            return PSym(e.newpsym(n, True, mk))
        if base in ('g0', 'g1', 'g2', 'g3'):
            def mk(e, st, n=n):
                q = e.memo.get(('charset', o.id, n))
                if q is None:
                    q = e.memo[('charset', o.id, n)] = e.newobj('charset(%s)' % n, 'opaque', lc(96 * 4), None, 'opaque').id
                return Ptr(q)
            return PSym(e.newpsym(n, False, mk))
        if n == 'palette':
            def mk(e, st):
                q = e.memo.get(('palette', o.id))
                if q is None:
                    q = e.memo[('palette', o.id)] = e.newobj('palette', 'opaque', lc(18 * 3), None, 'opaque').id
                return Ptr(q)
            return PSym(e.newpsym(n, False, mk))
        return None

    # -- fields
    def off(self, path, idx=None):
        d = self.m.member('tsm_vte', path)
        return d['off'] + (0 if idx is None else idx)

    def get(self, st, path, w=32, idx=0):
        return self.e.load(st, Ptr(self.o.id, lc(self.off(path) + idx * w // 8)), ('i', w), None)

    def getp(self, st, path):
        return self.e.resolve(st, self.e.load(st, Ptr(self.o.id, lc(self.off(path))), ('p',), None))

    def setc(self, st, path, v, w=32, idx=0):
        self.e.store_const(st, self.o, self.off(path) + idx * w // 8, Int(w, lc(v)), w // 8)

    def set(self, st, path, v, size=4, idx=0):
        self.e.store_const(st, self.o, self.off(path) + idx * size, v, size)

    # -- screen boundary
    def stub_screen(self):
        e = self.e

        def stub(e, st, x, a):
            name = e.callee
            if name in GETTERS:
                key = ('scr', name, st.gh.get('epoch', 0))
                if x.ty[0] == 'i':
                    s = e.memo.get(key)
                    if s is None:
                        s = e.memo[key] = e.S.fresh(x.ty[1], name[11:] + '@%d' % st.gh.get('epoch', 0))
                    st.ev(('get', name, tuple(a[1:]), x))
                    return [(st, Int(x.ty[1], ls(s)))]
            extra = None
            if len(a) > 1:
                p = e.resolve(st, a[-1])
                if isinstance(p, Ptr) and e.objs[p.o].kind != 'opaque':
                    extra = e.attr_of(st, p) if hasattr(e, 'attr_of') else None
            st.ev(('api', name, tuple(a[1:]), x, extra, a[0] if a else None))
            if name not in STILL:
                st.gh['epoch'] = st.gh.get('epoch', 0) + 1
            return [(st, e.unk(st, x.ty, name + '()'))]
        self.stub = stub
        for n, f in self.m.funcs.items():
            if n.startswith('tsm_screen_') and not f.decl:
                e.stubs[n] = stub

    def getter(self, name, epoch=0):
        """symbolic result of a screen getter before any screen operation"""
        key = ('scr', 'tsm_screen_get_' + name, epoch)
        s = self.e.memo.get(key)
        if s is None:
            s = self.e.memo[key] = self.e.S.fresh(32, name + '@%d' % epoch)
        return ls(s)

    def cut_decoder(self, lo=0, hi=0x10ffff):
        """the decoder delivers one arbitrary code point per byte"""
        e = self.e
        self.cp = e.S.fresh(32, 'codepoint', lo, hi)

        def feed(e, st, x, a):
            return [(st, Int(x.ty[1], lc(self.m.enum('TSM_UTF8_ACCEPT'))))]

        def get(e, st, x, a):
            return [(st, Int(32, ls(self.cp)))]
        e.stubs['tsm_utf8_mach_feed'] = feed
        e.stubs['tsm_utf8_mach_get'] = get

    def run_char(self, st, n=1):
        """tsm_vte_input of one byte whose decoded value is self.cp (UTF-8 mode)"""
        e = self.e
        b = e.newobj('input', 'arg', lc(n), ('a', n, ('i', 8)), 'lazy')
        return e.run('tsm_vte_input', [self.p, Ptr(b.id), Int(64, lc(n))], st)


def flag_values(mod, prefix='TSM_VTE_FLAG_'):
    return {n: v for n, v in mod.enums().items() if n.startswith(prefix)} if hasattr(mod, 'enums') else {}

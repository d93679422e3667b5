"""Screen operations: how each is called, what it is defined to do (on the reference model in scr.py), and the comparison of every
abstract end state with that definition."""
import multiprocessing
import os
import pickle
import traceback

from tsa import ir, load
from tsa.engine import *
from .common import Check, limit
from .scr import *


class Rec:
    """collects obligations in a worker"""

    def __init__(self):
        self.obs = {}
        self.viol = {}
        self.fns = set()
        self.n = self.cov = {}
        self.samples = []

    ob = Check.ob
    engine = Check.engine
    sample = Check.sample

    def count(self, what, n=1):
        self.n[what] = self.n.get(what, 0) + n


def merge(c, r):
    for k, (a, b) in r.obs.items():
        x = c.obs.setdefault(k, [0, 0])
        x[0] += a
        x[1] += b
    for k, m in r.viol.items():
        if k not in c.viol:
            c.viol[k] = m
        elif m not in c.viol[k] and len(c.viol[k]) < 1500:
            c.viol[k] += '\n' + m
    c.fns |= r.fns
    for k, n in r.n.items():
        c.cov[k] = c.cov.get(k, 0) + n
    for s in r.samples:
        c.sample(s)


def pool(c, jobs, worker):
    """run worker(rec, job) for every job on all cores and merge what it found"""
    import heapq
    n = min(os.cpu_count() or 4, 8)
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    idx = ctx.Value('i', 0)

    def work():
        r = Rec()
        err = None
        limit(780)
        try:
            while True:
                with idx.get_lock():
                    i = idx.value
                    idx.value += 1
                if i >= len(jobs):
                    break
                try:
                    worker(r, jobs[i])
                except Endless as ex:
                    r.ob('returns', False, *ex.args)
        except ir.IRError as ex:
            err = ('ir', '%s (job %s)' % (ex, str(jobs[i])[:200]))
        except Exception:
            err = ('x', traceback.format_exc() + ' job %s' % str(jobs[i])[:200])
        q.put(pickle.dumps((r.obs, r.viol, r.fns, r.n, r.samples, err)))
    ps = [ctx.Process(target=work) for _ in range(n)]
    for p in ps:
        p.start()
    got = [pickle.loads(q.get()) for _ in ps]
    for p in ps:
        p.join()
    errs = []
    for o, v, f, n, s, err in got:
        r = Rec()
        r.obs, r.viol, r.fns, r.n, r.samples = o, v, f, n, s
        merge(c, r)
        if err:
            errs.append(err)
    if errs:
        k, m = errs[0]
        if k == 'ir':
            raise ir.IRError(m)
        raise RuntimeError(m)


# ---------------------------------------------------------------- operations
# name -> (C function, argument kinds, flags that matter, effect on the reference model)
def _ero(x0, y0, x1, y1):
    return lambda r, p, *a: r.erase(x0(r), y0(r), x1(r), y1(r), p)


OPS = {
    'write': ('tsm_screen_write', ('sym', 'attr'), ('AUTO_WRAP', 'INSERT_MODE'), lambda r, w: r.write(w)),
    'newline': ('tsm_screen_newline', (), (), lambda r: r.newline()),
    'scroll_up': ('tsm_screen_scroll_up', ('n',), (), lambda r, n: r.scroll_up(n)),
    'scroll_down': ('tsm_screen_scroll_down', ('n',), (), lambda r, n: r.scroll_down(n)),
    'move_to': ('tsm_screen_move_to', ('x', 'y'), ('REL_ORIGIN',), lambda r, x, y: r.move_to(x, y)),
    'move_up': ('tsm_screen_move_up', ('n', 'b'), (), lambda r, n, b: r.move_up(n, b)),
    'move_down': ('tsm_screen_move_down', ('n', 'b'), (), lambda r, n, b: r.move_down(n, b)),
    'move_left': ('tsm_screen_move_left', ('n',), (), lambda r, n: r.move_left(n)),
    'move_right': ('tsm_screen_move_right', ('n',), (), lambda r, n: r.move_right(n)),
    'move_line_end': ('tsm_screen_move_line_end', (), (), lambda r: r.line_end()),
    'move_line_home': ('tsm_screen_move_line_home', (), (), lambda r: r.line_home()),
    'tab_right': ('tsm_screen_tab_right', ('n',), (), lambda r, n: r.tab_right(n, r.tabs)),
    'tab_left': ('tsm_screen_tab_left', ('n',), (), lambda r, n: r.tab_left(n, r.tabs)),
    'insert_lines': ('tsm_screen_insert_lines', ('n',), (), lambda r, n: r.insert_lines(n)),
    'delete_lines': ('tsm_screen_delete_lines', ('n',), (), lambda r, n: r.delete_lines(n)),
    'insert_chars': ('tsm_screen_insert_chars', ('n',), (), lambda r, n: r.insert_chars(n)),
    'delete_chars': ('tsm_screen_delete_chars', ('n',), (), lambda r, n: r.delete_chars(n)),
    'erase_cursor': ('tsm_screen_erase_cursor', (), (), lambda r: r.erase(r.ex, r.cy, r.ex, r.cy, False)),
    'erase_chars': ('tsm_screen_erase_chars', ('n',), (),
                    lambda r, n: n and r.erase(r.ex, r.cy, min(r.ex + n - 1, r.W - 1), r.cy, False)),
    'erase_cursor_to_end': ('tsm_screen_erase_cursor_to_end', ('b',), (),
                            lambda r, p: r.erase(r.ex, r.cy, r.W - 1, r.cy, p)),
    'erase_home_to_cursor': ('tsm_screen_erase_home_to_cursor', ('b',), (), lambda r, p: r.erase(0, r.cy, r.ex, r.cy, p)),
    'erase_current_line': ('tsm_screen_erase_current_line', ('b',), (), lambda r, p: r.erase(0, r.cy, r.W - 1, r.cy, p)),
    'erase_screen_to_cursor': ('tsm_screen_erase_screen_to_cursor', ('b',), (), lambda r, p: r.erase(0, 0, r.ex, r.cy, p)),
    'erase_cursor_to_screen': ('tsm_screen_erase_cursor_to_screen', ('b',), (),
                               lambda r, p: r.erase(r.ex, r.cy, r.W - 1, r.H - 1, p)),
    'erase_screen': ('tsm_screen_erase_screen', ('b',), (), lambda r, p: r.erase(0, 0, r.W - 1, r.H - 1, p)),
}
# operations without a reference model: judged by invariants only
for _n, _k in (('set_margins', ('u', 'u')), ('reset', ()), ('set_flags', ('mask',)), ('reset_flags', ('mask',)),
               ('set_max_sb', ('n',)), ('clear_sb', ()), ('sb_up', ('n',)), ('sb_down', ('n',)), ('sb_page_up', ('n',)),
               ('sb_page_down', ('n',)), ('sb_reset', ()), ('set_def_attr', ('attr',)), ('set_tabstop', ()), ('reset_tabstop', ()),
               ('reset_all_tabstops', ()), ('resize', ('w', 'h')), ('selection_reset', ()), ('selection_start', ('u', 'u')),
               ('selection_target', ('u', 'u'))):
    OPS[_n] = ('tsm_screen_' + _n, _k, (), None)
COUNTED = [n for n, o in OPS.items() if 'n' in o[1]]
PLAIN_PTRS = ('main_lines', 'alt_lines', 'lines', 'tab_ruler', 'sym_table')


class Case:
    """one operation on one shape"""

    def __init__(self, r, op, shape, clauses, kinds=()):
        self.r, self.op, self.shape, self.clauses = r, op, dict(shape), set(clauses)
        self.mod = load.module('lib')
        self.fn, self.kindsof, self.flags, self.ref = OPS[op]
        self.kinds = kinds

    def want(self, cl):
        return cl in self.clauses

    def go(self):
        sh = dict(self.shape)
        prot = sh.pop('protect', None)          # cells with an undetermined protect bit; None: all protected bits irrelevant
        sh2 = {k: sh.pop(k) for k in ('w', 'h', 'mask') if k in sh}      # new size, flags to change
        ndom = sh.pop('ndom', None)             # restrict counts to these values (tall screens)
        s = self.s = Scr(self.mod, **sh)
        self.ndom = ndom
        s.start(self.r)
        e = s.e
        args, self.av = [], []
        self.attr = self.ch = None
        self.uargs = []
        for k in self.kindsof:
            if k in ('n', 'x', 'y'):
                v = s.arg(k)
                if ndom:
                    s.st.set_dom(v.l[1][0][0], tuple((a, b) for a, b in ndom))
                args.append(v)
                self.av.append((k, v))
            elif k == 'u':
                args.append(s.arg('arg', 32))
                self.uargs.append(args[-1])
            elif k in ('w', 'h', 'mask'):
                args.append(sh2[k])
            elif k == 'b':
                v = Int(1, ls(e.S.fresh(1, 'flag', 0, 1)))
                args.append(v)
                self.av.append((k, v))
            elif k == 'sym':
                self.ch = s.arg('ch')
                args.append(self.ch)
            elif k == 'attr':
                a = e.newobj('attr', 'heap', lc(self.mod.sizeof(('s', 'struct.tsm_screen_attr'))),
                             ('s', 'struct.tsm_screen_attr'), 'lazy', sname='tsm_screen_attr')
                args.append(Ptr(a.id))
                self.attr = [e.load_const(s.st, a, o, ('i', 8), 1, None) for n, o, b in s.attr_leaves]
        self.prot(prot)
        outs = s.run(self.fn, args)
        self.r.count('abstract end states', len(outs))
        self.r.count('operation and shape cases')
        self.r.engine(e, self.kinds)
        if not outs:
            self.r.ob('returns', False, self.fn, '%s() never returns (%s)' % (self.fn, self.where()))
        for st, ret in outs:
            self.ret = ret
            self.generic(st, ret)
            if self.ref is not None:
                self.judge(st)

    # -- invariants of every operation
    def generic(self, st, ret):
        s, r = self.s, self.r
        cls = 'new size %dx%d' % (self.shape['w'], self.shape['h']) if 'w' in self.shape else None
        w = lambda m: (lambda: '%s(): %s [%s]' % (self.fn, m(), self.where(st, cls)))
        if self.want('geometry'):
            self.geometry(st, w, self.op)
        if self.want('lists'):
            self.lists(st, w, self.op)
        if self.want('dangling'):
            self.dangling(st, w, self.op)
        if self.want('heap'):
            self.heap(st, w, self.op)
        if self.want('oom'):
            self.oom(st, ret, w, self.op)
        if self.want('isolate'):
            self.isolate(st, w, self.op)
        if self.want('position'):
            self.position(st, w, self.op)
        if self.want('resized'):
            self.resized(st, ret, w, self.op)
        if self.want('select') and self.ref is None:
            if self.op.startswith('selection_'):
                self.choose(st, w, self.op)
            else:
                ref = Ref(s, {})
                if self.op == 'resize' and self.shape['h'] < s.H:
                    ref.up(0, s.H - 1, s.H - self.shape['h'], True)
                self.select(st, ref, w, self.op)
        if self.want('age'):
            for st1 in self.fork(st, ('HIDE_CURSOR', 'INVERSE')):
                self.ageing(st1, w, self.op)

    def fork(self, st, flags):
        s = self.s
        out = [st]
        for f in flags:
            out = [s2 for x in out for s2, t in s.t.bit_split(x, s.o_flags, flag(f))]
            out = [s2 for x in out for s2, t in s.t.bit_split(x, s.geti(x, 'flags'), flag(f))]
        return out

    def bounded(self, st, v, lo, hi):
        """is an unsigned 32-bit field provably within lo..hi"""
        if not isinstance(v, Int):
            return False
        k = st.const(v.l)
        if k is not None:
            return lo <= k & UMAX <= hi
        l = self.s.e.norm_u(st, v)
        return st.prove(laddk(l, -lo)) and st.prove(laddk(lscale(l, -1), hi))

    def geometry(self, st, w, key):
        s, r = self.s, self.r
        n = lambda f: s.num(st, f)
        W, H = n('size_x'), n('size_y')
        if not r.ob('size', bool(W) and bool(H), key, w(lambda: 'the size becomes %s x %s' % (W, H))):
            return
        r.ob('size', s.num(st, 'line_num') is not None and s.num(st, 'line_num') >= H, key,
             w(lambda: '%s rows allocated for a height of %d' % (s.num(st, 'line_num'), H)))
        r.ob('cursor inside', self.bounded(st, s.geti(st, 'cursor_y'), 0, H - 1), key,
             w(lambda: 'cursor row %s with %d rows' % (n('cursor_y'), H)))
        r.ob('cursor inside', self.bounded(st, s.geti(st, 'cursor_x'), 0, W), key,
             w(lambda: 'cursor column %s with %d columns' % (n('cursor_x'), W)))
        t, b = s.geti(st, 'margin_top'), s.geti(st, 'margin_bottom')
        ok = self.bounded(st, b, 0, H - 1) and self.bounded(st, t, 0, H - 1) and st.prove(lsub(b.l, t.l))
        r.ob('scroll region', ok, key, w(lambda: 'scroll region %s..%s of %d rows' % (n('margin_top'), n('margin_bottom'), H)))
        tr = s.ptr(st, 'tab_ruler')
        ok = isinstance(tr, Ptr) and tr.o not in st.freed and st.const(tr.l) == 0 and s.size_of(st, tr.o) >= W
        r.ob('tab table', ok, key, w(lambda: 'the tab-stop table is shorter than the screen is wide'))
        cur = s.ptr(st, 'lines')
        m, a = s.ptr(st, 'main_lines'), s.ptr(st, 'alt_lines')
        fl = s.geti(st, 'flags')
        for st1, alt in s.t.bit_split(st, fl, flag('ALTERNATE')):
            r.ob('active table', cur == (a if alt else m) and m != a, key,
                 w(lambda: 'the displayed row table is not the one of the %s screen' % ('alternate' if alt else 'main')))
        seen = {}
        for which, p in (('main_lines', m), ('alt_lines', a)):
            ok = isinstance(p, Ptr) and p.o not in st.freed and s.size_of(st, p.o) >= 8 * (n('line_num') or 0)
            r.ob('row table', ok, key, w(lambda: '%s is smaller than the number of rows' % which))
            rows = s.tabl(st, which) if ok else []
            for i, l in enumerate(rows):
                ok = l is not None and l not in st.freed
                if not r.ob('row table', ok, key, w(lambda: 'row %d of %s is no valid row' % (i, which))):
                    continue
                r.ob('row storage', l not in seen, key, w(lambda: 'row %d of %s is also row %s' % (i, which, seen.get(l))))
                seen[l] = '%d of %s' % (i, which)
                self.rowsize(st, l, W if i < H else 0, w, key, 'row %d of %s' % (i, which))

    def rowsize(self, st, l, W, w, key, name):
        s = self.s
        c = s.lget(st, l, 'cells')
        v = s.lget(st, l, 'size')
        k = st.const(v.l) if isinstance(v, Int) else None
        have = s.size_of(st, c.o) if isinstance(c, Ptr) and c.o not in st.freed and st.const(c.l) == 0 else None
        self.r.ob('row size', have is not None and k is not None and k >= W and have >= k * s.csize, key,
                  w(lambda: '%s has room for %s cells, size %s, screen width %d' % (name, have and have // s.csize, k, W)))

    def lists(self, st, w, key):
        """the scrollback list is sound"""
        s, r = self.s, self.r
        got, ok, prev, p = [], True, None, s.ptr(st, 'sb_first')
        while isinstance(p, Ptr) and len(got) < len(s.sb) + s.H + 2:
            ok &= p.o not in st.freed and st.const(p.l) == 0
            if not ok:
                break
            q = s.lget(st, p.o, 'prev')
            ok &= (q == NULL) if prev is None else (isinstance(q, Ptr) and q.o == prev)
            got.append(p.o)
            prev = p.o
            p = s.lget(st, p.o, 'next')
        ok &= p == NULL
        last = s.ptr(st, 'sb_last')
        ok &= (last == NULL and not got) or (isinstance(last, Ptr) and bool(got) and last.o == got[-1])
        nm = lambda: [s.rows.get(x, 'new') for x in got]
        if not r.ob('history list', ok, key, w(lambda: 'the list of history rows is broken (%s)' % nm())):
            return
        r.ob('history count', s.num(st, 'sb_count') == len(got), key,
             w(lambda: 'sb_count is %s for %d rows' % (s.num(st, 'sb_count'), len(got))))
        mx = s.geti(st, 'sb_max')
        r.ob('history limit', st.prove(laddk(s.e.norm_u(st, mx), -len(got))), key,
             w(lambda: '%d rows of history exceed the limit %s' % (len(got), s.num(st, 'sb_max'))))
        for a, b in zip(got, got[1:]):
            x, y = s.lget(st, a, 'sb_id'), s.lget(st, b, 'sb_id')
            ok = isinstance(x, Int) and isinstance(y, Int) and st.prove(laddk(lsub(y.l, x.l), -1))
            r.ob('history ids', ok, key, w(lambda: 'row ids do not grow from %s to %s' % (s.rows.get(a, 'new'), s.rows.get(b, 'new'))))
        tabs = (s.tabl(st, 'main_lines') or []) + (s.tabl(st, 'alt_lines') or [])
        r.ob('history rows apart', not set(got) & set(tabs), key, w(lambda: 'a history row is also a row of the screen'))
        for i, l in enumerate(got):
            self.rowsize(st, l, 1, w, key, 'history row %d' % i)
        # the history only loses its oldest rows and only gains rows of the main screen at its end
        old = [l.id for l in s.sb]
        keep = [x for x in got if x in old]
        new = got[len(keep):]
        mains = [l.id for l in s.main[1]]
        k = len(old) - len(keep)
        ok = keep == old[k:] and not any(x in old for x in new)
        ok = ok and [x for x in new if x in mains] == [x for x in mains if x in new]
        r.ob('history order', ok, key, w(lambda: 'the history becomes %s from %s' % (nm(), [s.rows[x] for x in old])))
        if self.op == 'clear_sb':
            r.ob('history evictions', not got, key, w(lambda: '%d rows are left after clearing' % len(got)))
        elif k:
            full = st.prove(laddk(lscale(s.e.norm_u(st, mx), -1), len(got)))
            r.ob('history evictions', full, key, w(lambda: '%d rows are dropped although %d rows are below the limit %s' % (
                k, len(got), s.num(st, 'sb_max'))))
        if new:
            r.ob('history of the main screen', not s.alt, key, w(lambda: 'rows reach the history from the alternate screen'))
        p = s.ptr(st, 'sb_pos')
        r.ob('scroll position', p == NULL or isinstance(p, Ptr) and p.o in got, key,
             w(lambda: 'the scroll position is no row of the history'))
        self.hist = got

    def dangling(self, st, w, key):
        """no pointer of the screen refers to a released row; every row that is gone has been released with its cells"""
        s, r = self.s, self.r
        live = set()
        for f in ('sb_first', 'sb_last', 'sb_pos', 'sel_start.line', 'sel_end.line'):
            p = s.ptr(st, f)
            if isinstance(p, Ptr):
                r.ob('no released row referenced', p.o not in st.freed, key + ':' + f,
                     w(lambda: '%s refers to the released row %s' % (f, s.rows.get(p.o, 'new'))))
        for which in ('main_lines', 'alt_lines'):
            live |= set(s.tabl(st, which) or [])
            r.ob('no released row referenced', None not in live and not any(l in st.freed for l in live), key + ':' + which,
                 w(lambda: '%s refers to a released row' % which))
        p, n = s.ptr(st, 'sb_first'), 0
        while isinstance(p, Ptr) and p.o not in st.freed and n < 400:
            live.add(p.o)
            p = s.lget(st, p.o, 'next')
            n += 1
        r.ob('no released row referenced', not (isinstance(p, Ptr) and p.o in st.freed), key + ':list',
             w(lambda: 'the history list runs into a released row'))
        for l, name in s.rows.items():
            if l not in live:
                r.ob('gone rows are released', l in st.freed and s.cells[l].id in st.freed, key,
                     w(lambda: 'row %s is gone from the screen and the history but not released' % name))
            else:
                r.ob('rows in use are kept', l not in st.freed, key, w(lambda: 'row %s is still in use but released' % name))

    def heap(self, st, w, key):
        """everything allocated is reachable or released, nothing reachable is released"""
        s, r = self.s, self.r
        re = s.reach(st, [(s.o.id, 'screen')])
        for o, path in re.items():
            if s.e.objs[o].kind != 'heap':
                continue
            r.ob('nothing released is reachable', o not in st.freed, key,
                 w(lambda: '%s (%s) is still referred to but released' % (path, s.e.objs[o].name)))
        mine = [x[1] for x in st.events() if x[0] == 'alloc'] + [s.main[0].id, s.altl[0].id, s.tab.id] + list(s.rows) + \
            [c.id for c in s.cells.values()]
        for o in mine:
            if o not in re:
                r.ob('nothing is lost', o in st.freed, key, w(lambda: '%s is neither referred to nor released' % s.e.objs[o].name))

    def oom(self, st, ret, w, key):
        """an operation that reports a result reports failure exactly when an allocation failed"""
        s, r = self.s, self.r
        failed = bool(st.gh.get('oom'))
        r.count('paths with a failed allocation', int(failed))
        if ret is None or not isinstance(ret, Int):
            return
        if failed:
            neg = st.prove(laddk(lscale(s.e.norm_s(st, ret), -1), -1))
            if self.op == 'resize' and not neg and s.t.eq(st, ret, 0):
                # only a row scrolled off the top may be dropped, the new size is in effect
                want = (self.shape['w'], self.shape['h'])
                got = (s.num(st, 'size_x'), s.num(st, 'size_y'))
                r.ob('failure reported', got == want and self.shape['h'] < s.H, key,
                     w(lambda: 'success is reported although an allocation failed and the size is %sx%s' % got))
                return
            r.ob('failure reported', neg, key, w(lambda: 'an allocation failed but the result is not negative'))
            if self.op == 'resize':
                for f, v in (('size_x', s.W), ('size_y', s.H), ('cursor_x', s.cx), ('cursor_y', s.cy)):
                    r.ob('failed resize changes nothing', s.num(st, f) == v, key, w(lambda: '%s becomes %s' % (f, s.num(st, f))))
                vis = s.tabl(st)
                for y in range(s.H):
                    l = (s.altl if s.alt else s.main)[1][y].id
                    ok = vis is not None and vis[y] == l and l not in st.freed
                    r.ob('failed resize changes nothing', ok, key, w(lambda: 'row %d is replaced' % y))
                    for x in range(s.W if ok else 0):
                        a, b = s.cell(st, l, x), s.initial_cell(l, x)
                        r.ob('failed resize changes nothing', all(s.same(st, f, p, q) for f, p, q in zip(s.leaves, a, b)), key,
                             w(lambda: 'cell %d,%d changes' % (x, y)))
        else:
            r.ob('success reported', s.t.eq(st, ret, 0) or self.op != 'resize', key, w(lambda: 'no allocation failed but the result is %s' % ret))

    def isolate(self, st, w, key):
        """the screen that is not shown keeps its rows; switching shows the other one unchanged"""
        s, r = self.s, self.r
        W, H = s.num(st, 'size_x'), s.num(st, 'size_y')
        W0, H0 = min(W, s.W), min(H, s.H)
        switch = self.op in ('set_flags', 'reset_flags', 'reset')
        for which, tab, mine in (('main_lines', s.main, not s.alt), ('alt_lines', s.altl, s.alt)):
            if mine and not switch:
                continue
            got = s.tabl(st, which)
            nm = 'main' if which == 'main_lines' else 'alternate'
            for i in range(H0):
                l = tab[1][i].id
                ok = got is not None and got[i] == l and l not in st.freed
                r.ob('hidden rows keep their place', ok, key + ':' + which, w(lambda: 'row %d of the %s screen is replaced' % (i, nm)))
                if not ok:
                    continue
                for x in range(W0):
                    a, b = s.cell(st, l, x), s.initial_cell(l, x)
                    r.ob('hidden rows keep their content', all(s.same(st, f, p, q) for f, p, q in zip(s.leaves, a, b)), key + ':' + which,
                         w(lambda: 'cell %d,%d of the %s screen changes while it is %s' % (x, i, nm, 'switched' if switch else 'hidden')))
        cur, m, a = s.ptr(st, 'lines'), s.ptr(st, 'main_lines'), s.ptr(st, 'alt_lines')
        fl = s.geti(st, 'flags')
        for st1, alt in s.t.bit_split(st, fl, flag('ALTERNATE')):
            r.ob('shown screen', cur == (a if alt else m), key,
                 w(lambda: 'the rows shown are not those of the %s screen' % ('alternate' if alt else 'main')))
            if not switch:
                r.ob('no switch', bool(alt) == bool(s.alt), key, w(lambda: 'the operation switches the screen'))
            # attributes the main screen had when it was left
            base, now = s.off['def_attr_main'], s.off['def_attr'] if alt and not s.alt else s.off['def_attr_main']
            for n, o, bits in s.attr_leaves:
                x = s.e.load_const(st, s.o, base + o, ('i', 8), 1, None)
                y = s.e.load_const(s.st0, s.o, now + o, ('i', 8), 1, None)
                r.ob('attributes of the main screen', s.same(st, (n, s.leaves[2][1] + o, 1), x, y), key,
                     w(lambda: 'the saved attribute %s of the main screen is wrong' % n))
        if self.op not in ('set_max_sb', 'clear_sb') and s.alt:
            p, got = s.ptr(st, 'sb_first'), []
            while isinstance(p, Ptr) and p.o not in st.freed and len(got) < 999:
                got.append(p.o)
                p = s.lget(st, p.o, 'next')
            ok = got == [l.id for l in s.sb] and s.num(st, 'sb_count') == len(got)
            r.ob('history untouched', ok, key, w(lambda: 'the history changes on the alternate screen'))
            for l in got:
                r.ob('history untouched', ok and self.row_same(st, l), key, w(lambda: 'a history row changes on the alternate screen'))
        if self.op == 'resize' and s.alt and H > 0:
            # what resizing adds to the hidden main screen is blank in the attributes of the main screen
            got = s.tabl(st, 'main_lines') or []
            blank = s.blank(s.st0, 'def_attr_main')
            for i in range(H):
                for x in range(W):
                    if i < s.H and x < s.W:
                        continue
                    if got[i] is None or got[i] in st.freed:
                        continue
                    c = s.cell(st, got[i], x)
                    r.ob('added cells of the main screen', all(s.same(st, f, p, q) for f, p, q in zip(s.leaves, c, blank)), key,
                         w(lambda: 'cell %d,%d added to the hidden main screen is not blank' % (x, i)))

    def resized(self, st, ret, w, key):
        """a new size keeps the text that fits"""
        s, r = self.s, self.r
        W, H = self.shape['w'], self.shape['h']
        d = max(0, s.H - H)
        n = lambda f: s.num(st, f)
        r.ob('accepted', s.t.eq(st, ret, 0), key, w(lambda: 'the new size is refused (%s)' % ret))
        r.ob('new size', (n('size_x'), n('size_y')) == (W, H), key, w(lambda: 'the size becomes %s x %s' % (n('size_x'), n('size_y'))))
        r.ob('mode flags', s.t.eq(st, s.geti(st, 'flags'), s.o_flags), key, w(lambda: 'the mode flags change'))
        same = (W, H) == (s.W, s.H)
        mt, mb = (s.mt, s.mb) if same else (0, H - 1)
        r.ob('scroll region', (n('margin_top'), n('margin_bottom')) == (mt, mb), key,
             w(lambda: 'the scroll region becomes %s..%s, defined is %d..%d' % (n('margin_top'), n('margin_bottom'), mt, mb)))
        tab = s.ptr(st, 'tab_ruler')
        for x in range(W):
            v = s.e.load_const(st, s.e.objs[tab.o], x, ('i', 8), 1, None) if isinstance(tab, Ptr) else None
            ok = v == s.e.load_const(s.st0, s.tab, x, ('i', 8), 1, None) if same else v is not None and s.t.eq(st, v, int(x % 8 == 0))
            r.ob('tab stops', ok, key, w(lambda: 'the tab stop of column %d is wrong' % x))
        cy = max(0, s.cy - d)
        xs = (s.cx,) if s.cx < W or same else (W - 1, W)
        r.ob('cursor', n('cursor_y') == cy and n('cursor_x') in xs, key,
             w(lambda: 'cursor ends at %s,%s, defined is %d,%d' % (n('cursor_x'), n('cursor_y'), xs[0], cy)))
        fit = min(W, s.W)
        for which, tab, cur in (('main_lines', s.main, not s.alt), ('alt_lines', s.altl, s.alt)):
            got = s.tabl(st, which) or []
            r.ob('row table', len(got) >= H, key, w(lambda: '%s has %d rows' % (which, len(got))))
            blank = s.blank(s.st0, 'def_attr_main' if s.alt and which == 'main_lines' else 'def_attr')
            for y in range(min(H, len(got))):
                l = got[y]
                if not r.ob('row table', l is not None and l not in st.freed, key, w(lambda: 'row %d of %s is no row' % (y, which))):
                    continue
                src = y + d if cur else y
                for x in range(W):
                    c = s.cell(st, l, x)
                    keep = src < s.H and x < fit
                    want = s.initial_cell(tab[1][src].id, x) if keep else blank
                    ok = c is not None and all(s.same(st, f, p, q) for f, p, q in zip(s.leaves, c, want))
                    r.ob('text kept' if keep else 'added cells blank', ok, key, w(lambda: 'cell %d,%d of %s %s' % (
                        x, y, 'the screen on display' if cur else 'the hidden screen',
                        'does not hold what was at row %d' % src if keep else 'is added and not blank')))
        # rows pushed off the top are the youngest rows of the history
        out = [l.id for l in s.main[1][:d]] if not s.alt else []
        p, hist = s.ptr(st, 'sb_first'), []
        while isinstance(p, Ptr) and p.o not in st.freed and len(hist) < 999:
            hist.append(p.o)
            p = s.lget(st, p.o, 'next')
        want = [('old', l.id) for l in s.sb] + [('out', l) for l in out]
        if len(hist) < len(want):
            full = st.prove(laddk(lscale(s.e.norm_u(st, s.geti(st, 'sb_max')), -1), len(hist)))
            r.ob('history', full and len(out) > 0, key, w(lambda: 'only %d of %d rows are in the history' % (len(hist), len(want))))
        r.ob('history', len(hist) <= len(want), key, w(lambda: 'the history grows to %d rows, defined is %d' % (len(hist), len(want))))
        for l, (k, o) in zip(hist, want[len(want) - len(hist):]):
            for x in range(fit if k == 'out' else 1):
                a, b = s.cell(st, l, x), s.initial_cell(o, x)
                ok = (k == 'out' or l == o) and a is not None and all(s.same(st, f, p, q) for f, p, q in zip(s.leaves, a, b))
                r.ob('history', ok, key, w(lambda: 'history row %s does not hold %s' % (s.rows.get(l, 'new'), s.rows[o])))

    def position(self, st, w, key):
        """scroll position: the number reported is the index of the top row shown, and it moves as defined"""
        s, r = self.s, self.r
        p, got = s.ptr(st, 'sb_first'), []
        while isinstance(p, Ptr) and p.o not in st.freed and len(got) < 400:
            got.append(p.o)
            p = s.lget(st, p.o, 'next')
        p = s.ptr(st, 'sb_pos')
        if not r.ob('scroll position', p == NULL or isinstance(p, Ptr) and p.o in got, key,
                    w(lambda: 'the scroll position is no row of the history')):
            return
        idx = len(got) if p == NULL else got.index(p.o)
        num = s.num(st, 'sb_pos_num')
        r.ob('reported position', num == idx, key, w(lambda: 'the reported position is %s, the top row shown is row %d of %d' % (
            num, idx, len(got))))
        old = [l.id for l in s.sb]
        p0 = s.ptr(s.st0, 'sb_pos')
        i0 = len(old) if p0 == NULL else old.index(p0.o)
        live0 = p0 == NULL
        if self.op in ('sb_up', 'sb_down', 'sb_page_up', 'sb_page_down'):
            r.ob('history untouched', got == old, key, w(lambda: 'scrolling the view changes the history'))
            n = self.av[0][1]
            step = s.H if 'page' in self.op else 1
            top = len(old) + 1
            for s2, k in s.t.split(st, n, [[(i, i)] for i in range(top + 1)] + [[(top + 1, UMAX)]], signed=False):
                d = k * step
                want = max(0, i0 - d) if 'up' in self.op else min(len(old), i0 + d)
                r.ob('scrolling distance', idx == want, key, w(lambda: 'from row %d by %s%d the view goes to row %d, not %d (of %d)' % (
                    i0, 'at least ' if k > top else '', d, idx, want, len(old))))
        elif self.op in ('sb_reset', 'clear_sb'):
            r.ob('back to the screen', p == NULL, key, w(lambda: 'the view stays in the history'))
        elif live0:
            r.ob('view stays', p == NULL, key, w(lambda: 'the view moves into the history by itself'))
        else:
            for st1, fixed in s.t.bit_split(st, s.o_flags, flag('FIXED_POS')):
                if p0.o in got and (fixed or len(got) > len(old) or not any(x not in old for x in got)):
                    evicted = old[0] not in got
                    if fixed or not evicted or self.op == 'set_max_sb':
                        r.ob('view stays', p == p0, key, w(lambda: 'the row at the top of the view changes from %d to %d' % (i0, idx)))
                elif got and p0.o not in got:
                    r.ob('view stays', fixed and idx == 0 or not fixed and p != NULL or p == Ptr(got[0]), key,
                         w(lambda: 'the top row of the view is dropped and the view goes to row %d' % idx))

    # -- selection
    def sel_at(self, st, end):
        """(line or None, x, y) of an end of the selection"""
        s = self.s
        p = s.ptr(st, end + '.line')
        y = s.num(st, end + '.y')
        return (p.o if isinstance(p, Ptr) else None if p == NULL else '?'), s.geti(st, end + '.x'), \
            y - (1 << 32) if y is not None and y >> 31 else y

    def select(self, st, ref, w, key):
        """both ends of the selection keep denoting the same row of text, wherever it goes"""
        s, r = self.s, self.r
        if s.sel is None:
            return
        got, p = [], s.ptr(st, 'sb_first')
        while isinstance(p, Ptr) and p.o not in st.freed and len(got) < 400:
            got.append(p.o)
            p = s.lget(st, p.o, 'next')
        H = s.num(st, 'size_y')
        pos = {t[1]: i for i, t in enumerate(ref.rows) if t[0] == 'row'}
        tab = (s.altl if s.alt else s.main)[1]
        lost = []
        act = s.num(st, 'sel_active', 1)
        todo = []
        for end, spec in zip(('sel_start', 'sel_end'), s.sel):
            if spec == 'top' or spec[0] == 'sb' and s.sb[spec[1]].id not in got:
                todo.append((end, spec, None, s.selection_top))
            elif spec[0] == 'sb':
                todo.append((end, spec, s.sb[spec[1]].id, None))
            elif spec[1] >= s.H:
                continue
            else:
                l = tab[spec[1]].id
                if l in pos:
                    todo.append((end, spec, None, pos[l]))
                elif ('row', l) in ref.out:
                    todo.append((end, spec, l if l in got else None, None if l in got else s.selection_top))
                else:
                    lost.append((end, spec))
        if not act:
            r.ob('selection kept', bool(lost), key, w(lambda: 'the selection %s is dropped although none of its ends is erased' % (s.sel,)))
            return
        for end, spec in lost:
            l, x, y = self.sel_at(st, end)
            r.ob('selection of erased text', l is None and y is not None and y >= H, key,
                 w(lambda: 'the row %s of the selection is erased, but the selection goes on at %s %s' % (spec, s.rows.get(l, 'row'), y)))
        for end, spec, line, row in todo:
            l, x, y = self.sel_at(st, end)
            ok = l == line and (row is None or y == row)
            r.ob('selection follows', ok, key, w(lambda: '%s of selection %s should be %s, is %s' % (
                end, s.sel, s.rows.get(line, 'row %s' % row), s.rows.get(l, 'row %s' % y) if l else 'row %s' % y)))
            if line or row != s.selection_top:
                r.ob('selection follows', x == s.geti(s.st0, end + '.x'), key, w(lambda: 'the column of %s changes' % end))

    def choose(self, st, w, key):
        """starting and extending select the cell under the pointer"""
        s, r = self.s, self.r
        act = s.num(st, 'sel_active', 1)
        if self.op == 'selection_reset':
            r.ob('selection reset', act == 0, key, w(lambda: 'the selection stays active'))
            return
        ends = ('sel_start', 'sel_end')
        old = lambda e: tuple(self.sel_at(s.st0, e))
        if self.op == 'selection_target' and s.sel is None:
            r.ob('selection chosen', act == 0, key, w(lambda: 'a selection comes into being without being started'))
            return
        r.ob('selection chosen', act == 1, key, w(lambda: 'no selection is active'))
        if self.op == 'selection_target':
            r.ob('selection chosen', self.sel_at(st, 'sel_start') == old('sel_start'), key, w(lambda: 'extending moves the start'))
            ends = ends[1:]
        p0 = s.ptr(s.st0, 'sb_pos')
        ids = [l.id for l in s.sb]
        above = ids[ids.index(p0.o):] if isinstance(p0, Ptr) else []
        ax, ay = self.uargs
        n = len(above)
        for s2, k in s.t.split(st, ay, [[(i, i)] for i in range(n)] + [[(n, UMAX)]], signed=False):
            for e in ends:
                l, x, y = self.sel_at(s2, e)
                r.ob('selection chosen', x == ax, key, w(lambda: 'the column of %s is not the one pointed at' % e))
                if k < n:
                    r.ob('selection chosen', l == above[k], key, w(lambda: 'pointing at row %d of the view selects %s, not history row %s' % (
                        k, s.rows.get(l, 'a row of the screen'), s.rows[above[k]])))
                else:
                    v = s.geti(s2, e + '.y')
                    ok = l is None and isinstance(v, Int) and s2.prove(laddk(lsub(s.e.norm_u(s2, v), s.e.norm_u(s2, ay)), n)) \
                        and s2.prove(laddk(lsub(s.e.norm_u(s2, ay), s.e.norm_u(s2, v)), -n))
                    r.ob('selection chosen', ok, key, w(lambda: 'pointing at a row of the screen selects %s' % (s.rows.get(l) or v)))

    # -- ageing
    def display(self, st):
        """what drawing shows: [(row, x)] -> (line, inverse toggles)"""
        s = self.s
        W, H = s.num(st, 'size_x'), s.num(st, 'size_y')
        rows, p = [], s.ptr(st, 'sb_pos')
        while isinstance(p, Ptr) and len(rows) < H:
            rows.append((p.o, None))
            p = s.lget(st, p.o, 'next')
        t = s.tabl(st)
        k = 0
        while len(rows) < H:
            rows.append((t[k], k))
            k += 1
        return W, H, rows

    def ageing(self, st, w, key):
        s, r = self.s, self.r
        t = s.t
        W0, H0, old = self.display_cached(st)
        W, H, new = self.display(st)
        st0 = s.st0
        cnt = s.geti(st, 'age_cnt', 8)
        cnt0 = s.geti(st0, 'age_cnt', 8)
        d = self.mod.member('tsm_screen', 'age_reset')
        rb = lambda q: s.e.bits(st, s.e.load_const(q, s.o, d['off'], ('i', 8), 1, None))[d['bit'] - d['off'] * 8]
        val = lambda b: st.bit(b[0], b[1]) if isinstance(b, tuple) else b
        reset, reset0 = val(rb(st)), val(rb(st0))
        r.ob('reset mark', reset == 1 or reset == reset0, key, w(lambda: 'the forced redraw is forgotten'))
        if reset == 1:
            return
        eq = lambda a, b: isinstance(a, Int) and isinstance(b, Int) and (a == b or t.eq(st, a, b))
        newer = st.prove(laddk(lsub(cnt.l, cnt0.l), -1))
        r.ob('age counter', newer or eq(cnt, cnt0), key, w(lambda: 'the age counter goes backwards'))
        fresh = lambda a: isinstance(a, Int) and (newer and eq(a, cnt) or st.prove(laddk(lsub(a.l, cnt0.l), -1)))
        con, con0 = s.geti(st, 'age', 8), s.geti(st0, 'age', 8)
        allf = fresh(con)
        r.ob('age kept', allf or eq(con, con0), key, w(lambda: 'the age of the screen is lowered'))
        if allf:
            r.count('whole-screen marks')
            r.ob('marked', True)
            return
        bit = lambda f, q: val(s.e.bits(st, s.geti(q, 'flags'))[flag(f).bit_length() - 1])
        hide, hide0, inv, inv0 = bit('HIDE_CURSOR', st), bit('HIDE_CURSOR', st0), bit('INVERSE', st), bit('INVERSE', st0)
        cur = lambda q, rows, W, H: (min(s.num(q, 'cursor_x'), W - 1), next((i for i, x in enumerate(rows)
                                                                            if x[1] == min(s.num(q, 'cursor_y'), H - 1)), None))
        c0 = cur(st0, old, W0, H0) if hide0 == 0 else None
        c1 = cur(st, new, W, H) if hide == 0 else None
        if hide not in (0, 1) or hide0 not in (0, 1) or inv not in (0, 1) or inv0 not in (0, 1):
            r.ob('marked', False, key, w(lambda: 'cannot tell what is shown'))
            return
        sel = [s.geti(st, 'sel_active', 1), s.geti(st0, 'sel_active', 1)]
        for y in range(H):
            l = new[y][0]
            for x in range(W):
                if y < H0 and x < W0:
                    l0 = old[y][0]
                    same = inv == inv0 and ((x, y) == c0) == ((x, y) == c1)
                    same = same and (self.unseen(st, l, x) and self.unseen(st0, l0, x) or
                                     not self.unseen(st, l, x) and not self.unseen(st0, l0, x) and
                                     all(s.same(st, f, a, b) for f, a, b in zip(s.leaves, s.cell(st, l, x), s.cell(st0, l0, x))))
                else:
                    l0, same = None, False
                la = s.lget(st, l, 'age')
                if self.unseen(st, l, x):
                    ca = None
                    mark = fresh(la)
                else:
                    ca = s.cell_age(st, l, x)
                    mark = fresh(ca) or fresh(la)
                if not same:
                    r.ob('marked', mark, key, w(lambda: 'cell %d,%d changes (%s) without getting a new age' % (
                        x, y, 'cursor' if ((x, y) == c0) != ((x, y) == c1) else 'inverse' if inv != inv0 else 'content')))
                else:
                    ok = mark or (eq(la, s.lget(st0, l0, 'age')) and (ca is None or self.unseen(st0, l0, x) or
                                                                      eq(ca, s.cell_age(st0, l0, x)) or eq(ca, cnt)))
                    r.ob('age kept', ok, key, w(lambda: 'cell %d,%d may lose an earlier mark' % (x, y)))

    def display_cached(self, st):
        if not hasattr(self, '_disp'):
            self._disp = self.display(self.s.st0)
        return self._disp

    def unseen(self, st, l, x):
        v = self.s.lget(st, l, 'size')
        k = st.const(v.l)
        return k is not None and x >= k

    def prot(self, cells):
        """fix the protect bit of all cells except the given (row, column) ones"""
        if cells is None:
            return
        s = self.s
        off = [o for n, o, b in s.attr_leaves if b][0]
        d = self.mod.member('tsm_screen_attr', 'protect')
        bit = d['bit'] - d['off'] * 8
        ao = [o for n, o, w in s.leaves if o in s.bits_at][0]
        self.pbit = {}
        cur = s.altl if s.alt else s.main
        for y in range(s.H):
            l = cur[1][y]
            for x in range(s.W):
                o = s.e.objs[s.cells[l.id].id]
                p = x * s.csize + ao
                b = list(s.e.bits(s.st, s.e.load_const(s.st, o, p, ('i', 8), 1, None)))
                if (y, x) in cells:
                    self.pbit[(l.id, x)] = b[bit]
                else:
                    b[bit] = self.shape_protect(y, x)
                    self.pbit[(l.id, x)] = b[bit]
                    s.e.store_const(s.st, o, p, s.e.from_bits(s.st, b, 8), 1)

    def shape_protect(self, y, x):
        return (x + y) & 1

    def where(self, st=None, cls=None):
        s = self.s
        return 'screen %dx%d, cursor %d,%d, margins %d..%d, %s%s%s' % (
            s.W, s.H, s.cx, s.cy, s.mt, s.mb, 'alternate' if s.alt else 'main', ', %d rows of history' % s.nsb if s.nsb else '',
            ', ' + cls if cls else '')

    # -- judging
    def judge(self, st):
        s = self.s
        work = [(st, [], [])]
        for k, v in self.av:
            nxt = []
            for st1, a, d in work:
                if k == 'b':
                    for s2, i in s.t.split(st1, v, [[(0, 0)], [(1, 1)]], signed=False):
                        nxt.append((s2, a + [bool(i)], d + ['yes' if i else 'no']))
                else:
                    n = max(s.W, 2 * s.H) + 1
                    for s2, i in classes(s, st1, v, n):
                        nxt.append((s2, a + [i if i <= n else 1 << 31], d + ['%s=%s' % (k, i if i <= n else 'huge')]))
            work = nxt
        if self.ch is not None:
            nxt = []
            for st1, a, d in work:
                if s.wid is not None:
                    nxt.append((st1, a + [s.wid], d + ['width %d' % s.wid]))
                    continue
                for s2, i in s.t.split(st1, s.stub_width(s.e, st1, None, None)[0][1], [[(0, 0)], [(1, 1)], [(2, 2)]], signed=False):
                    nxt.append((s2, a + [i], d + ['width %d' % i]))
            work = nxt
        for f in self.flags:
            nxt = []
            for st1, a, d in work:
                for s2, t in s.t.bit_split(st1, s.o_flags, flag(f)):
                    nxt.append((s2, a, d + [(f, int(t))]))
            work = nxt
        for st1, a, d in work:
            fl = dict(x for x in d if isinstance(x, tuple))
            cls = ', '.join([x for x in d if not isinstance(x, tuple)] + ['%s %s' % (f, 'on' if v else 'off') for f, v in fl.items()])
            ref = Ref(s, fl)
            if 'tab' in self.op:
                self.tabs(st1, ref, a, cls)
                continue
            self.ref(ref, *a)
            self.compare(st1, ref, cls)

    def tabs(self, st, ref, a, cls):
        s = self.s
        work = [(st, [])]
        for i in range(s.W):
            v = s.e.load_const(s.init, s.tab, i, ('i', 8), 1, None)
            nxt = []
            for st1, t in work:
                for s2, b in s.t.split(st1, v, [[(0, 0)], [(1, 1)]], signed=False):
                    nxt.append((s2, t + [b]))
            work = nxt
        import copy
        for st1, t in work:
            r2 = copy.deepcopy(ref)
            r2.tabs = t
            self.ref(r2, *a)
            self.compare(st1, r2, cls + ', tab stops %s' % ''.join('|' if b else '.' for b in t))

    def compare(self, st, ref, cls):
        s, r = self.s, self.r
        r.count('judged partitions')
        w = lambda m: (lambda: '%s(): %s [%s]' % (self.fn, m(), self.where(st, cls)))
        n = lambda f: s.num(st, f)
        key = self.op
        if self.want('cursor'):
            got = (n('cursor_x'), n('cursor_y'))
            r.ob('cursor', got == (ref.cx, ref.cy), key, w(lambda: 'cursor ends at %s,%s, defined is %d,%d' % (got + (ref.cx, ref.cy))))
        if self.want('frame'):
            for f, v in (('size_x', s.W), ('size_y', s.H), ('margin_top', s.mt), ('margin_bottom', s.mb), ('line_num', s.line_num)):
                r.ob('frame', n(f) == v, key + '.' + f, w(lambda: '%s changes from %s to %s' % (f, v, n(f))))
            r.ob('frame', s.t.eq(st, s.geti(st, 'flags'), s.o_flags), key + '.flags', w(lambda: 'the mode flags change'))
            for f in PLAIN_PTRS:
                r.ob('frame', s.ptr(st, f) == s.ptr(s.st0, f), key + '.' + f, w(lambda: '%s changes' % f))
            for i in range(s.W):
                a = s.e.load_const(st, s.tab, i, ('i', 8), 1, None)
                b = s.e.load_const(s.st0, s.tab, i, ('i', 8), 1, None)
                r.ob('frame', a == b, key + '.tab_ruler', w(lambda: 'tab stop %d changes' % i))
        if self.want('select'):
            self.select(st, ref, w, key)
        vis = s.tabl(st)
        if self.want('rows') or self.want('content'):
            self.rows(st, ref, vis, w, key)
        if self.want('other'):
            # the table that is not shown, and rows below the screen
            for which, tab in (('main_lines', s.main), ('alt_lines', s.altl)):
                cur = self.is_cur(which)
                got = s.tabl(st, which)
                for i, l in enumerate(tab[1]):
                    if cur and i < s.H:
                        continue
                    ok = got is not None and got[i] == l.id and self.row_same(st, l.id)
                    r.ob('other screen untouched', ok, key, w(lambda: 'row %d of %s changes, which is not on display' % (i, which)))
        if self.want('history'):
            self.history(st, ref, w, key)

    def is_cur(self, which):
        return (which == 'alt_lines') == bool(self.s.alt)

    def row_same(self, st, l):
        s = self.s
        if l in st.freed or s.cells[l].id in st.freed:
            return False
        if s.lget(st, l, 'cells') != s.lget(s.st0, l, 'cells') or s.lget(st, l, 'size') != s.lget(s.st0, l, 'size'):
            return False
        return all(s.cell(st, l, x) == s.initial_cell(l, x) for x in range(s.W))

    def rows(self, st, ref, vis, w, key):
        s, r = self.s, self.r
        if not r.ob('row table', vis is not None, key, w(lambda: 'the row table is gone')):
            return
        tabs = {'main': s.tabl(st, 'main_lines'), 'alt': s.tabl(st, 'alt_lines')}
        alive = all(l is not None and l not in st.freed for t in tabs.values() for l in (t or [None]))
        r.ob('row table', alive, key, w(lambda: 'the row table holds a released row or no row'))
        if not alive:
            return
        allr = tabs['main'] + tabs['alt']
        cl = [s.lget(st, l, 'cells') for l in allr]
        r.ob('row storage', len(set(allr)) == len(allr) and len(set(cl)) == len(cl), key,
             w(lambda: 'two rows share storage: %s' % [s.rows.get(l, 'new') for l in allr]))
        for y in range(s.H):
            l = vis[y]
            tok = ref.rows[y]
            if tok[0] == 'row' and tok not in ref.grid:
                want = [('o', tok[1], x) for x in range(s.W)]
            else:
                want = ref.cells(tok)
            c = s.lget(st, l, 'cells')
            size = s.e.load_const(st, s.e.objs[l], s.loff['size'], ('i', 32), 4, None)
            k = st.const(size.l) if isinstance(size, Int) else None
            if not r.ob('row size', isinstance(c, Ptr) and c.o not in st.freed and k is not None and k >= s.W, key,
                        w(lambda: 'row %d has no cells of its own or too few' % y)):
                continue
            for x in range(s.W):
                got = s.cell(st, l, x)
                self.cellcheck(st, y, x, want[x], got, w, key)

    def cellcheck(self, st, y, x, tok, got, w, key):
        s, r = self.s, self.r
        if tok[0] == 'p':
            old = tok[1]
            b = self.pbit[(old[1], old[2])] if hasattr(self, 'pbit') else None
            if b in (0, 1):
                return self.cellcheck(st, y, x, old if b else ('b',), got, w, key)
            for s2, t in self.split_bit(st, b):
                r.ob('protected' if t else 'unprotected', token_ok(s, s2, old if t else ('b',), got, self.attr, self.ch), key,
                     w(lambda: 'cell %d,%d is %s, but %s' % (x, y, 'protected' if t else 'not protected',
                                                              'does not survive' if t else 'is not cleared')))
            return
        cl = 'content' if tok[0] != 'b' else 'blank'
        r.ob(cl, token_ok(s, st, tok, got, self.attr, self.ch), key,
             w(lambda: 'cell %d,%d should hold %s and does not' % (x, y, describe(s, tok))))

    def split_bit(self, st, b):
        k = st.bit(b[0], b[1])
        for t in (0, 1):
            if k in (0, 1) and k != t:
                continue
            s2 = st.clone()
            try:
                if k not in (0, 1):
                    s2.set_bit(k[0], k[1], t)
            except Infeasible:
                continue
            yield s2, bool(t)

    def history(self, st, ref, w, key):
        s, r = self.s, self.r
        # expected list of rows, oldest first
        rows = [l.id for l in s.sb]
        for t in ref.out:
            rows.append(t[1] if t[0] == 'row' else t)
        mx = s.num(st, 'sb_max')
        got, ok, prev, p = [], True, None, s.ptr(st, 'sb_first')
        while isinstance(p, Ptr) and len(got) < len(rows) + 3:
            ok &= p.o not in st.freed
            if p.o in st.freed:
                break
            q = s.lget(st, p.o, 'prev')
            ok &= (q == NULL) if prev is None else (isinstance(q, Ptr) and q.o == prev)
            got.append(p.o)
            prev = p.o
            p = s.lget(st, p.o, 'next')
        ok &= p == NULL
        last = s.ptr(st, 'sb_last')
        ok &= (last == NULL and not got) or (isinstance(last, Ptr) and bool(got) and last.o == got[-1])
        names = [s.rows.get(x, 'new') for x in got]
        r.ob('history list', ok, key, w(lambda: 'the list of history rows is broken (%s)' % names))
        r.ob('history count', s.num(st, 'sb_count') == len(got), key,
             w(lambda: 'sb_count is %s for %d rows' % (s.num(st, 'sb_count'), len(got))))
        # which rows: the youngest ones that fit
        want = rows
        if s.sbmax is not None:
            want = rows[max(0, len(rows) - s.sbmax):] if ref.out else rows
            r.ob('history limit', len(got) <= s.sbmax, key, w(lambda: '%d rows of history, limit %d' % (len(got), s.sbmax)))
        elif len(got) < len(rows) and st.prove(laddk(lscale(s.e.norm_u(st, s.geti(st, 'sb_max')), -1), len(got))):
            want = rows[len(rows) - len(got):]
        want = [x if isinstance(x, int) else None for x in want]
        ok = len(want) == len(got) and all(a is None or a == b for a, b in zip(want, got))
        r.ob('history rows', ok, key, w(lambda: 'history is %s, defined is %s' % (
            names, [s.rows.get(x, 'new') if x else 'a blank row' for x in want])))
        for a, b in zip(got, got[1:]):
            x, y = s.lget(st, a, 'sb_id'), s.lget(st, b, 'sb_id')
            ok = isinstance(x, Int) and isinstance(y, Int) and st.prove(laddk(lsub(y.l, x.l), -1))
            r.ob('history ids', ok, key, w(lambda: 'row ids do not grow from %s to %s' % (s.rows.get(a, 'new'), s.rows.get(b, 'new'))))

import os
import re

from tsa.vte import Vte
from .screens import *
from .drawing import *


def queries(c):
    """no getter stores into anything that existed before the call"""
    mod = load.module('lib')
    hdr = open(os.path.join(load.REPO, 'src/tsm/libtsm.h')).read()
    names = sorted(set(re.findall(r'\b(tsm_(?:screen|vte)_\w*get\w*)\s*\(', hdr)))
    c.floor('public queries', len(names), 10)
    for fn in names:
        F = mod.funcs.get(fn)
        if F is None or F.decl:
            raise ir.IRError('anchor: function %s not defined' % fn)
        if fn.startswith('tsm_screen'):
            s = Scr(mod, 2, 2, cx=1, cy=1, sb=1, sbpos=0)
            s.start(c)
            e, st, args = s.e, s.st, [s.p]
        elif fn.startswith('tsm_vte'):
            v = Vte(mod)
            e, st, args = v.e, v.st, [v.p]
        outs_ok = set()
        for (ty, n) in F.params[len(args):]:
            if ty[0] == 'p':
                o = e.newobj('argument %s' % n, 'opaque', None, None, 'opaque')
                if n in ('out', 'size'):
                    outs_ok.add(o.id)
                args.append(Ptr(o.id))
            else:
                args.append(Int(ty[1], ls(e.S.fresh(ty[1], n))))
        had = set(range(len(e.objs))) if isinstance(e.objs, list) else set(e.objs)
        bad = []
        e.on_store = lambda st, o, p, v, size, ins: bad.append('%s+%s' % (o.name, p)) if o.id in had and o.id not in outs_ok and \
            o.kind != 'alloca' else None
        res = e.run(fn, args, st)
        c.ob('queries return', bool(res), fn, '%s() never returns' % fn)
        c.ob('query without effect', not bad, fn, '%s(): writes to %s' % (fn, sorted(set(bad))[:4]))
        ev = [x for st1, r in res for x in st1.events() if x[0] in ('scr', 'cb')]
        c.ob('query without effect', not ev, fn, '%s(): calls %s' % (fn, ev[:2]))
        c.engine(e, ('null', 'uaf'))


def check(Check):
    c = Check('C20', 'other', 'Getters: no store on any path reaches an object that existed before the call (except the result). '
              'tsm_screen_draw(): on every path the only store is the redraw request; the callback gets every cell of the view once, in '
              'row-major order, with the symbol, width, colours, attributes (highlight for cursor, inverse mode and selection), age and an '
              'id that tells symbol and attributes apart. ' + BOUND + '.')
    load.module('lib')
    queries(c)
    j = cases(c.thorough)
    pool(c, j, lambda r, x: DrawCase(r, x[0], x[1], x[2], x[3], None).go())
    c.assumptions.append('bounded to the listed screen shapes; one cell at a time has arbitrary content, the others are distinct constants')
    c.floor('draw cases', c.cov.get('draw cases', 0), len(j))
    c.sample('draw %s mode %s cell %s flags %s' % j[len(j) // 2])
    return c.finish()

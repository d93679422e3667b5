"""Frame of the screen checks: run a list of (operation, shape) cases with a set of clauses."""
from .common import Check
from .ops import *
from . import shapes

BOUND = ('screen sizes are partitioned: each operation is analysed on a grid of concrete widths, heights, cursor positions, scroll regions '
         'and numbers of history rows (listed in coverage); inside one partition counts, coordinates, flags, cell contents, attributes, '
         'ages and symbols are arbitrary')


def run(pid, rule, jobs, clauses, kinds=(), least=100, also=None, done=None):
    c = Check(pid, 'other', rule + ' ' + BOUND + '.')
    load.module('lib')
    c.cov['shapes'] = len({repr(sorted(s.items())) for _, s in jobs})
    c.cov['operations'] = sorted({OPS[o][0] for o, _ in jobs})
    pool(c, [(o, s) for o, s in jobs], lambda r, j: Case(r, j[0], j[1], clauses, kinds).go())
    if also:
        also(c)
    c.assumptions.append('bounded to the listed screen shapes; larger screens run the same loops more often')
    c.floor('operation and shape cases', c.cov.get('operation and shape cases', 0), least)
    c.sample('%s on %s' % jobs[len(jobs) // 2])
    if done:
        done(c)
    return c.finish()

from .screens import *
from .drawing import DrawCase, cases

DRAWN = ('age of cells', 'redraw request', 'returned age', 'every cell once, in order')


def drawn(c):
    """drawing passes the newest of the ages of cell, row and screen, or none if everything must be redrawn"""
    j = [x for x in cases(c.thorough) if x[1] == 'age']
    pool(c, j, lambda r, x: DrawCase(r, x[0], x[1], x[2], x[3], DRAWN).go())
    c.floor('draw cases', c.cov.get('draw cases', 0), len(j))


def check(Check):
    th = Check('C19', 'other', '').thorough
    j = shapes.everything(th) + shapes.writes(th) + shapes.chars(th) + shapes.wide('chars', 'writes', 'lines')
    return run('C19', 'For every operation and every cell on display, before and after are compared in the abstract end state: a cell whose shown content may differ carries an age above the old counter (cell, row, screen or forced redraw).',
               j, ('age',), (), least=len(j), also=drawn)

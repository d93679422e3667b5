from .screens import *
from .drawing import DrawCase, cases


def drawn(c):
    """drawing highlights exactly the cells between the two ends"""
    j = [x for x in cases(c.thorough) if x[1] == 'fail']
    pool(c, j, lambda r, x: DrawCase(r, x[0], x[1], x[2], x[3], ('highlight',)).go())
    c.floor('draw cases', c.cov.get('draw cases', 0), len(j))


def check(Check):
    th = Check('C34', 'other', '').thorough
    j = [(o, s) for o, s in shapes.everything(th, True) if 'sel' in s or o.startswith('selection')] + shapes.selecting(th)
    return run('C34', 'Each end of an active selection denotes a row of text. After every operation it still denotes that row, where the '
               'reference model says the row went: its new place on the screen, the same row in the history, the clipped top if the row was '
               'evicted; a selection one of whose ends was erased is dropped or ends below the screen. Starting and extending choose '
               'the row under the pointer.', j, ('select', 'dangling'), (), least=len(j), also=drawn)

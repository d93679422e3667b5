from .screens import *


def check(Check):
    th = Check('C36', 'other', '').thorough
    j = shapes.history(th) + [x for x in shapes.everything(th)]
    for n in (4, 6):
        for pos in (None, 0, 1, 3, n - 1):
            j += [(op, shapes.S(1, 2, sb=n, sbmax=n, sbpos=pos)) for op in shapes.SBOPS]
    return run('C36', 'After every operation the reported scroll position equals the index of the row the scroll position refers to '
               '(the number of history rows when the screen itself is shown); the four scrolling operations move it by the requested '
               'distance or to the end; no other operation moves the view except as the history drops rows.',
               j, ('position',), (), least=len(j))

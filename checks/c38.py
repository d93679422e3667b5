from .screens import *


def check(Check):
    th = Check('C38', 'other', '').thorough
    j = shapes.sizes(th) + shapes.wide('sizes')
    return run('C38', 'For every pair of sizes the abstract end state of tsm_screen_resize() is compared cell by cell with its definition: rows '
               'leave only at the top and enter the history in order, what fits of every other row of both screens stays, added cells are '
               'blank in the attributes of their screen, cursor, scroll region and tab stops are the defined ones.',
               j, ('resized',), ('null', 'uaf', 'bounds', 'uninit', 'undef'), least=len(j))

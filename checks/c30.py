from .screens import *


def check(Check):
    j = shapes.erases(Check('C30', 'other', '').thorough) + shapes.wide('erases')
    return run('C30', 'For every erase operation, each cell of the abstract end state is compared with the area the operation is defined '
               'to clear; cursor, flags, margins and all other rows must be unchanged.',
               j, ('cursor', 'frame', 'rows', 'other', 'history'), least=len(j))

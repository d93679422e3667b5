from .screens import *


def check(Check):
    j = shapes.motion(Check('C31', 'other', '').thorough) + shapes.wide('motion')
    return run('C31', 'For every cursor movement of the screen layer, the abstract end state of the compiled function is compared with the '
               'definition of the movement: cursor position, rows scrolled, every cell, mode flags, tab stops, margins, history.',
               j, ('cursor', 'frame', 'rows', 'other', 'history'), least=len(j))

from .screens import *
from .copying import *


def check(Check):
    c = Check('C21', 'other', 'tsm_screen_selection_copy() with the real encoder on partitioned screens and selection end points: every access '
              'is inside its row or the returned buffer, nothing else is written, the byte at the returned length is NUL and none before it '
              'is, and the text is that of the selected cells in reading order. ' + BOUND + '.')
    load.module('lib')
    j = cases(c.thorough) + fails()
    pool(c, j, lambda r, x: CopyCase(r, *x).go())
    c.assumptions.append('bounded to the listed screen shapes; one cell at a time has arbitrary content, the others follow fixed patterns that '
                         'include empty, wide, orphan, unencodable and four-byte cells')
    c.floor('copies', c.cov.get('copies', 0), len(j))
    c.sample('copy %s rows %s focus %s' % j[len(j) // 2])
    return c.finish()

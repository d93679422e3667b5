"""C43: inserting, deleting and overwriting characters."""
from .screens import *

RULE = ('For inserting and deleting characters and for writing a symbol, each cell of the abstract end state is compared with the cell, the '
        'blank or the written symbol the definition puts there (symbol, width, every attribute field and bit); cursor, flags, scroll region, '
        'tab stops, selection, history and all other rows must be as defined.')


def jobs(th):
    out = shapes.chars(th) + shapes.wide('chars', 'writes')
    for W in (2, 3, 5) + ((7, 8, 12) if th else ()):
        for cx in range(W + 1):
            for op in shapes.CHARS:
                out.append((op, shapes.S(W, 3, cx=cx, cy=cx % 3, alt=cx & 1, mt=cx % 2, mb=1 + cx % 2, extra=1)))
                out.append((op, shapes.S(W, 1, cx=cx, alt=1 - (cx & 1), sb=1, sbmax=2)))
    for W in (1, 2, 3, 5) + ((7, 9) if th else ()):
        for cx in range(W + 1):
            out.append(('write', shapes.S(W, 2, cx=cx, cy=cx & 1, alt=1)))
            out.append(('write', shapes.S(W, 2, cx=cx, cy=1 - (cx & 1), mb=cx & 1, sbmax=1, sb=1)))
    return out


def check(Check):
    j = jobs(Check('C43', 'other', '').thorough)
    return run('C43', RULE, j, ('cursor', 'frame', 'rows', 'other', 'history'), least=len(j))

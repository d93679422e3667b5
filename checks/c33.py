from .screens import *


def check(Check):
    th = Check('C33', 'other', '').thorough
    j = shapes.lines(th) + shapes.chars(th) + shapes.wide('lines', 'chars')
    return run('C33', 'For every operation that moves rows, the row table of the abstract end state is compared, row by row and cell by '
               'cell, with the permutation the operation is defined to perform; no two rows share storage and rows that leave the top of '
               'the main screen are the ones appended to the history.',
               j, ('cursor', 'frame', 'rows', 'other', 'history'), least=len(j))

from .screens import *


def check(Check):
    th = Check('C25', 'other', '').thorough
    j = shapes.history(th) + shapes.everything(th)
    return run('C25', 'On every path of every screen operation the history list is walked in the abstract end state: links, ends, counter, limit, ids, order of the rows, and which rows were added or dropped.',
               j, ('lists', 'history'), (), least=len(j))

from .screens import *


def check(Check):
    th = Check('C14', 'other', '').thorough
    j = shapes.everything(th, True) + shapes.history(th)
    return run('C14', 'Ownership typestate of rows: on every path no released row is accessed or released again, no field of the screen refers to a released row in the end state, rows in use are kept and rows that are gone are released.',
               j, ('dangling', 'heap'), ('uaf', 'free', 'null'), least=len(j))

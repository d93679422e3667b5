from .screens import *


def check(Check):
    th = Check('C01', 'other', '').thorough
    j = shapes.everything(th) + shapes.history(th) + shapes.wide('motion', 'writes', 'sizes')
    return run('C01', 'After every screen operation the geometry invariants (cursor, scroll region, row tables, row sizes, tab table, active table) are proved on every abstract end state, assuming them before; they also hold after creation.',
               j, ('geometry',), ('null',), least=len(j))

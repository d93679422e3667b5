from .copying import CopyCase, fails
from .screens import *

ALLOC = ('resize', 'scroll_up', 'newline', 'write', 'move_down', 'set_max_sb', 'clear_sb', 'delete_lines', 'insert_lines')


def check(Check):
    th = Check('C16', 'other', '').thorough
    j = [(o, dict(s, oom=True)) for o, s in shapes.everything(th, True) + shapes.history(th) + shapes.writes(th)
         if o in ALLOC and s['H'] < 100]
    return run('C16', 'Every allocation forks into success and failure. On every path with a failed allocation: no missing memory is '
               'dereferenced, the result (if the operation has one) is negative, geometry, history and row ownership invariants hold, '
               'nothing allocated is lost.',
               j, ('oom', 'heap', 'geometry', 'lists', 'dangling'), ('null', 'uaf', 'free', 'uninit', 'undef'), least=len(j),
               also=lambda c: pool(c, fails(), lambda r, x: CopyCase(r, *x).go()))

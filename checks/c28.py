from .screens import *


def check(Check):
    th = Check('C28', 'other', '').thorough
    j = [x for x in shapes.everything(th) + shapes.history(th) + shapes.lines(th) + shapes.writes(th) + shapes.erases(th)
         if x[1].get('alt') or x[0] in ('set_flags', 'reset_flags', 'reset', 'resize')]
    return run('C28', 'For every operation that starts on the alternate screen, each row and cell of the main screen and of the history is '
               'compared before and after on the abstract end state; for every switch, the rows shown and the attributes saved.',
               j, ('isolate',), (), least=len(j))

from .screens import *


def check(Check):
    th = Check('C27', 'other', '').thorough
    j = shapes.erases(th) + shapes.wide('erases')
    return run('C27', 'For every erase operation, each cell of the abstract end state is compared with the definition: protected cells survive a selective erase, every other cell of the area takes the default attributes, no cell outside changes.',
               j, ('rows', 'other'), (), least=len(j))

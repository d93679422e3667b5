from .screens import *


def check(Check):
    th = Check('C02', 'other', '').thorough
    j = shapes.everything(th, True) + shapes.history(th) + shapes.lines(th) + shapes.chars(th) + shapes.writes(th) + shapes.wide('lines', 'chars', 'writes', 'erases', 'sizes')
    return run('C02', 'Every load, store and block copy in every screen operation is an obligation: its offset range lies inside the object it refers to.',
               j, (), ('bounds', 'vla', 'null'), least=len(j))

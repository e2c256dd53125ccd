from envspec import CFLAGS
UNITS = [dict(cpp='G03.cpp', cflags=CFLAGS, jobs=[dict(fn='h_init_' + s) for s in ('pp', 'pn', 'np', 'nn', '0p', '0n', 'p0', 'n0')] + [dict(fn='h_lemma'), dict(fn='h_step')])]
NATIVE = []
from envspec import NAT, ENVSRC
NATIVE = NAT('G03', '6000 random rays (all directions, axis parallel and nearly so, origins on borders) through grids up to 12x12', src=ENVSRC + ['maps/GridBase.cpp', 'maps/Grids.cpp', 'tools/BresenhamLine.cpp'])

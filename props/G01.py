from envspec import CFLAGS, NAT, ENVSRC
GRIDSRC = ENVSRC + ['maps/GridBase.cpp', 'maps/Grids.cpp', 'tools/BresenhamLine.cpp']
UNITS = [dict(cpp='G01.cpp', cflags=CFLAGS, jobs=[dict(fn=f) for f in ('h_toGrid', 'h_toGrid_overloads', 'h_fromGrid', 'h_timesX', 'h_extents', 'h_order')])]
NATIVE = NAT('G01', '20000 random grids and points with dyadic coordinates (all cells, borders, far outside), sub cells, extents, 500 random frames', src=GRIDSRC)

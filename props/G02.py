UNITS = [dict(cpp='G02.cpp', jobs=[dict(fn='h_init'), dict(fn='h_step')])]
NATIVE = dict(cpp='G02.cpp', src=['tools/BresenhamLine.cpp'], what='all lines with extents <= 7, 6000 random lines up to 60000 cells, every overload')

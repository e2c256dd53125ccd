from envspec import *
C = ['cell']
K = '(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&)'
GD = {f'envire::Grid<double>::getGridData{K}{c}': 'c_band' for c in ('', ' const')}
J = lambda fn, l=(): dict(fn=fn, loops=LOOPS(*l), contracts=GD)
EN = 'envire::ElevationGrid::getNormal(envire::GridBase::Position const&) const'
UNITS = [dict(cpp='M05.cpp', cflags=CFLAGS, jobs=[J('h_raster'), J('h_get'), J('h_minmax', [('inv_at', C), ('inv_min', C), ('inv_max', C), ('inv_lo', C), ('inv_hi', C)]), J('h_normal'), dict(fn='h_elevation', contracts=dict(GD, **{EN: 'c_normal'})), J('h_elev_get')])]
NATIVE = NAT('M05', '60 random grids of each of the seven cell types: bands, values, extrema, no-data, copies; 400 elevation grids', src=ENVSRC + ['maps/GridBase.cpp', 'maps/Grids.cpp', 'maps/ElevationGrid.cpp', 'tools/BresenhamLine.cpp'])

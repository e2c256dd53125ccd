from envspec import *
LG = r'~^envire::ListGrid<envire::SurfacePatch>::'
INS = {LG + r'insertHead\(': 'c_head', LG + r'insertTail\(': 'c_tail', LG + r'erase\(': 'c_erase', LG + r'clear\(': 'c_clear', r'~^envire::MLSGrid::Index::addCell\(': 'c_index', r'~^envire::MLSGrid::Index::reset\(': 'c_reset'}
BEG = {r'~^envire::MLSGrid::beginCell\(unsigned long, unsigned long\)': 'c_begin'}
POS = {r'~^envire::GridBase::toGrid\(double, double, unsigned long&, unsigned long&, double&, double&\) const': 'c_togrid', r'~^envire::MLSGrid::updateCell\(unsigned long, unsigned long, envire::SurfacePatch const&\)': 'c_update', r'~^envire::SurfacePatch::SurfacePatch\(Eigen::Matrix': 'c_point',
       r'~^envire::MLSGrid::get\(envire::GridBase::Position const&, envire::SurfacePatch const&, double, bool\)': 'c_get', r'~^envire::SurfacePatch::getHeight\(Eigen': 'c_height'}
J = lambda fn, c, l=(), **k: dict(fn=fn, contracts=c, loops=LOOPS(*l), **k)
DEADLINE = 100
UNITS = [dict(cpp='M02.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts={}, opts=OPTS, jobs=[J('h_insertHead', INS), J('h_insertTail', INS), J('h_erase', INS), J('h_count', INS), J('h_clear', INS), J('h_update', POS), J('h_getPos', POS)])]
NATIVE = NAT('M02', '400 histories (50 operations, 3 grids up to 5x5 cells), matching and sloped surfaces', src=ENVSRC + ['maps/MLSGrid.cpp', 'maps/GridBase.cpp', 'maps/Grids.cpp', 'tools/BresenhamLine.cpp'])
ASSUMPTIONS = []
TRUSTED = ['ListGrid (proved as M01)', 'SurfacePatch (proved as M03)', 'GridBase::toGrid (proved as G01)', 'std::set']

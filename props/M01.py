from envspec import *
C = {r'~^boost::object_pool<.*>::malloc\(\)': 'c_malloc', r'~^boost::object_pool<.*>::free\(': 'c_free'}
S = [LoopSpec('.', [('inv_it', ['al:8']), ('inv_last', ['al:8', 'al:8'])])] if LoopSpec else []
DEADLINE = 150
UNITS = [dict(cpp='M01.cpp', opts=dict(containers=True), contracts=C, jobs=[dict(fn='h_insertHead'), dict(fn='h_erase'), dict(fn='h_insertTail', loops=S), dict(fn='h_insertTail_frame', loops=S), dict(fn='h_begin')])]
NATIVE = dict(cpp='M01.cpp', src=[], libs=[], what='random histories (60 operations, 3 grids up to 4x4 cells) against a grid of std::list')
ASSUMPTIONS = ['the pool hands out memory that is not in use']
TRUSTED = ['boost::object_pool::malloc/free', 'memory layout of boost::multi_array']

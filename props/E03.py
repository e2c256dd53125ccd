from envspec import *
C = dict(**HANDLE, **ATTACH, **RELEASE)
M = LOOPS(('inv_maps', ['iter', 'list']))
UNITS = [dict(cpp='E03.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[dict(fn='h_setFrameNode'), dict(fn='h_detachFrameNode'), dict(fn='h_getFrameNode'), dict(fn='h_getMaps', loops=M), dict(fn='h_map_api'), dict(fn='h_map_set'), dict(fn='h_frame_maps', loops=M)])]
NATIVE = NAT('E03', 'random histories (120 operations, maps and frames)')

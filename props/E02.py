from envspec import *
C = dict(**HANDLE, **ATTACH, **RELEASE)
NS = LOOPS(('inv_notseen', ['iter'])); P = LOOPS(('inv_parents', ['iter', 'list'])); CH = LOOPS(('inv_children', ['iter', 'list']))
UNITS = [dict(cpp='E02.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[dict(fn='h_addChild', loops=NS), dict(fn='h_removeChild', loops=NS), dict(fn='h_getParents', loops=P), dict(fn='h_layer_getParents', loops=P),
         dict(fn='h_getChildren', loops=CH), dict(fn='h_getChildrenConst', loops=CH), dict(fn='h_layer_add', loops=NS)])]
NATIVE = NAT('E02', 'random histories (120 operations, 8 layers)')

from envspec import *
C = dict(**HANDLE, **ATTACH, **RELEASE)
L = [LoopSpec('envire::', [('inv_children', ['iter', 'list']), ('inv_tree', [])])] if LoopSpec else []
UNITS = [dict(cpp='E01.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[dict(fn='h_addChild'), dict(fn='h_removeChild'), dict(fn='h_getParent'), dict(fn='h_getChildren', loops=L), dict(fn='h_node'), dict(fn='h_node_children', loops=L), dict(fn='h_node_add')])]
NATIVE = NAT('E01', 'random histories (120 operations, 3-8 frames)')

from envspec import *
C = dict(**HANDLE, **RELEASE)
DET = {'envire::EnvironmentItem::detach()': 'c_item_detach'}
S = LOOPS(('inv_cand', ['str']))
UNITS = [dict(cpp='E05.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[dict(fn='h_attach', loops=S), dict(fn='h_attach_foreign', loops=S, contracts=DET), dict(fn='h_getItem'), dict(fn='h_getItemT'), dict(fn='h_setUniqueId'), dict(fn='h_isAttached')])]
NATIVE = NAT('E05', 'random histories (120 operations, 13 items, two environments)')

from envspec import *
C = dict(**HANDLE, **ATTACH, **RELEASE)
RC = {'envire::EventHandler::receive(envire::Event const&)': 'c_rcv_tree', 'envire::Environment::publishChilds(envire::EventHandler*, envire::FrameNode*)': '!c_publish', 'envire::intrusive_ptr_release(envire::EnvironmentItem*)': 'c_ref', 'envire::intrusive_ptr_add_ref(envire::EnvironmentItem*)': 'c_ref'}
RR = dict(RC, **{'envire::EventHandler::receive(envire::Event const&)': 'c_rcv', 'envire::Environment::publishChilds(envire::EventHandler*, envire::FrameNode*)': 'c_publish_r', 'envire::EventSource::addEventHandler(envire::EventHandler*)': 'c_register'})
NS = LOOPS(('inv_notseen', ['iter']))
P = LOOPS(('inv_pub', ['iter', 'list']), ('inv_children', ['iter', 'list']))
R = lambda n: LOOPS(*([] if n == 'i_root' else [(n, ['iter'])]), (n + '0', []), (n + '1', []))
GC = {'envire::Environment::getChildren[abi:cxx11](envire::FrameNode*)': 'c_getChildren', 'envire::Environment::getMaps[abi:cxx11](envire::FrameNode*)': 'c_getMaps', 'envire::Environment::detachChilds(envire::FrameNode*, envire::EventHandler*)': '!c_unpub'}
UC = dict(RC, **GC, **{'envire::EventHandler::receive(envire::Event const&)': 'c_rcv_un'})
UT = LOOPS(*[(n, ['iter', 'list']) for n in ('u_tree', 'u_pub1')])
DC = dict(dict(RR, **GC), **{'envire::Environment::detachChilds(envire::FrameNode*, envire::EventHandler*)': 'c_unpub', 'envire::EventSource::removeEventHandler(envire::EventHandler*)': 'c_unregister'})
J = lambda fn, loops=NS, **k: dict(fn=fn, loops=loops, **k)
DEREG = [J('h_unpub_tree', UT, contracts=UC)] + [J('h_dereg_' + a, R('i_' + b), contracts=DC) for a, b in (('items', 'items'), ('root', 'root'), ('top', 'top'), ('layers', 'lay'))]
UNITS = [dict(cpp='E07.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[J('h_tree_add'), J('h_tree_remove'), J('h_layer_add'), J('h_layer_remove'), J('h_map_set'), J('h_map_detach'), J('h_modified'), J('h_publish', P, contracts=RC), *[J('h_reg_' + a, R('i_' + b), contracts=RR) for a, b in (('items', 'items'), ('root', 'root'), ('top', 'top'), ('maps', 'maps'), ('layers', 'lay'))], *DEREG])]
NATIVE = NAT('E07', 'random histories (120 operations, 13 items, up to three handlers coming and going)')

from envspec import *
I = 'envire::EnvironmentItem*'; F = 'envire::FrameNode*'; L = 'envire::Layer*'; M = 'envire::CartesianMap*'; D = 'envire::EventDispatcher::'
DV = {D + f'itemAttached({I})': 'd_attached', D + f'itemDetached({I})': 'd_detached', D + f'itemModified({I})': 'd_modified', D + f'setRootNode({F})': 'd_setroot', D + f'removeRootNode({F})': 'd_rmroot',
      D + f'childAdded({F}, {F})': 'd_add_f', D + f'childRemoved({F}, {F})': 'd_rm_f', D + f'childAdded({L}, {L})': 'd_add_l', D + f'childRemoved({L}, {L})': 'd_rm_l', D + f'frameNodeSet({M}, {F})': 'd_set', D + f'frameNodeDetached({M}, {F})': 'd_unset'}
HV = {'envire::EventFilter#2': 'c_filter', 'envire::EventHandler#2': 'c_hhandle'}
CL = {'envire::EnvironmentItem::clone() const': 'c_clone'}
REF = {'envire::intrusive_ptr_release(envire::EnvironmentItem*)': 'c_cnt_rel', 'envire::intrusive_ptr_add_ref(envire::EnvironmentItem*)': 'c_cnt_add'}
LE = 'std::__cxx11::list<envire::Event, std::allocator<envire::Event> >::'; IE = 'std::_List_iterator<envire::Event>::'; MX = 'boost::lock_guard<boost::mutex>::'
QC = dict(REF, **{'envire::Event::ref(bool)': 'c_ref_ev', LE + 'begin()': 'q_begin', LE + 'end()': 'q_end', LE + 'erase(std::_List_const_iterator<envire::Event>)': 'q_erase', LE + 'push_back(envire::Event const&)': 'q_push', LE + 'clear()': 'q_clear', IE + 'operator*() const': 'q_deref', IE + 'operator->() const': 'q_deref', IE + 'operator++()': 'q_inc', IE + 'operator++(int)': 'q_inc2',
      MX + 'lock_guard(boost::mutex&)': 'q_lock', MX + '~lock_guard()': 'q_lock'})
C = ['cell']; V = ['cell', 'int8']; E = ['al:88']; CE = ['cell', 'al:88']
J = lambda fn, loops=(), contracts=None, **vc: dict(fn=fn, loops=LOOPS(*loops), contracts=contracts or {}, opts=dict(vcalls=vc.get('vc', {})))
QL = [('inv_q_at', C), ('inv_q_rest', C), ('inv_q_done', C), ('inv_q_key', E), ('inv_q_item', E), ('inv_q_op', CE), ('inv_q_op2', CE), ('inv_q_valid', V), ('inv_q_cancel', V)]
N = 'envire::Environment::'
AC = {N + 'getItem(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&) const': 'a_getItem', N + 'getRootNode()': 'a_root', N + f'attachItem({I})': 'a_attach', N + f'detachItem({I}, bool)': 'a_detach', N + f'addChild({F}, {F})': 'a_addF', N + f'removeChild({F}, {F})': 'a_rmF',
      N + f'addChild({L}, {L})': 'a_addL', N + f'removeChild({L}, {L})': 'a_rmL', N + f'setFrameNode({M}, {F})': 'a_setM', N + f'detachFrameNode({M}, {F})': 'a_rmM', N + f'itemModified({I})': 'a_modified',
      'envire::intrusive_ptr_release(envire::EnvironmentItem*)': 'a_ref', 'envire::intrusive_ptr_add_ref(envire::EnvironmentItem*)': 'a_ref'}
UNITS = [dict(cpp='E08.cpp', rewrite=REWRITE, cflags=CFLAGS, opts=OPTS, jobs=[J('h_receive', vc=HV), J('h_setFilter'), J('h_filter_handle', vc=HV), J('h_source', [('inv_rcv', C)], {'envire::EventHandler::receive(envire::Event const&)': 'c_rcv_nth'}),
    J('h_dispatch', vc=DV), J('h_merge'), J('h_ref', contracts=REF, vc=CL), J('h_queue', QL, QC, vc=CL), J('h_flush', [('inv_flush', C)], QC, vc={'envire::EventQueue#3': 'c_process'}), J('h_apply', contracts=AC, vc={f'envire::EnvironmentItem::set({I})': 'a_setitem'})])]
NATIVE = NAT('E08', 'delivery to handlers, 120 random event sequences through a queue, 40 histories mirrored into a second environment')

from envspec import *
DEADLINE = 100
J = lambda fn, l=(), c={}: dict(fn=fn, loops=[LoopSpec('getExtents|isIncluded|find', list(l))] if LoopSpec and l else [], contracts=c)
F = [('inv_nf', ['iter'])]
AT = {'~^std::vector<Eigen::Matrix<double, 3, 1.*>::operator\\[\\]\\(unsigned long\\) const': 'c_at'}
UNITS = [dict(cpp='P01.cpp', cflags=CFLAGS, jobs=[J('h_included', [('inv_boxes', ['iter'])], {'~Eigen::AlignedBox<double, 3>::contains<': 'c_contains'}), J('h_contains'), J('h_extents', [('inv_in', ['int64']), ('inv_n', ['int64']), ('inv_e', ['int64']), ('inv_l', ['int64']), ('inv_h', ['int64']), ('inv_m', ['int64'])], AT), J('h_origin'), J('h_add', F), J('h_remove', F)])]
NATIVE = NAT('P01', '600 environments each: extents, copies and text; cutting with random boxes and data; merging in random frames', src=ENVSRC + ['maps/Pointcloud.cpp', 'operators/CutPointcloud.cpp', 'operators/MergePointcloud.cpp'])

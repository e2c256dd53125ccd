from envspec import *
E = 'Eigen::Transform<double, 3, 2, 0>'
ALG = {E + '::operator*(' + E + ' const&) const': 'c_mul', E + '::inverse(Eigen::TransformTraits) const': 'c_inv', E + '::Identity()': 'c_identity',
       E + '::Transform(' + E + ' const&)': 'c_copy', E + '::Transform(' + E + '&&)': 'c_copy', E + '::operator=(' + E + ' const&)': 'c_assign', E + '::operator=(' + E + '&&)': 'c_assign',
       r'~^Eigen::Matrix<double, 6, 6, 0, 6, 6>::Matrix': 'c_nop', r'~^Eigen::Matrix<double, 6, 6, 0, 6, 6>& Eigen::Matrix<double, 6, 6, 0, 6, 6>::operator=|^Eigen::Matrix<double, 6, 6, 0, 6, 6>::operator=': 'c_ret', r'~Eigen::DenseBase<Eigen::Matrix<double, 6, 6, 0, 6, 6> ?>::Zero\(\)': 'c_nop'}
PAR = {'envire::FrameNode::getParent() const': 'c_parent'}
U = {'envire::TransformWithUncertainty::operator*(envire::TransformWithUncertainty const&) const': 'c_umul', 'envire::TransformWithUncertainty::inverse() const': 'c_uinv'}
REL = {'envire::Environment::relativeTransform(envire::FrameNode const*, envire::FrameNode const*)': 'c_rel', 'envire::Environment::relativeTransformWithUncertainty(envire::FrameNode const*, envire::FrameNode const*)': 'c_rel_u', '~^envire::CartesianMap::getFrameNode\\(\\)': 'c_frame'}
J = lambda fn, l=(), *c: dict(fn=fn, loops=LOOPS(*l), contracts={k: v for d in (ALG,) + c for k, v in d.items()})
CH = [('inv_chain', ['al:128', 'cell']), ('inv_chain', ['al:424', 'cell']), ('inv_root', ['cell']), ('inv_n', ['cell'])]
TR = {r'~^std::pair<Eigen::Transform<double, 3, 2, 0>, envire::FrameNode const\*> relativeFrameNodeRoot<': 'c_toroot', r'~^std::pair<envire::TransformWithUncertainty, envire::FrameNode const\*> relativeFrameNodeRoot<': 'c_toroot_u'}
UNITS = [dict(cpp='T01.cpp', cflags=CFLAGS, rewrite=REWRITE, opts=OPTS, jobs=[J('h_toroot', CH, PAR), J('h_toroot_u', CH, PAR, U), J('h_relative', (), PAR, TR), J('h_relative_u', (), PAR, U, TR), J('h_maps', (), REL), J('h_node', (), REL), J('h_certain'), J('h_set', (), {'envire::Environment::itemModified(envire::EnvironmentItem*)': 'c_modified', 'envire::EnvironmentItem::isAttached() const': 'c_attached'})])]
NATIVE = NAT('T01', '400 random frame trees with maps, every pair of frames; 400 pairs of transforms with uncertainties against numerical derivatives')
DEADLINE = 100

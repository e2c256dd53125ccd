from envspec import *
J = lambda fn, l=(), **c: dict(fn=fn, loops=LOOPS(*l), contracts=c)
CONTRACTS = {r'~envire::Layer::getData<boost::multi_array<unsigned char': 'c_data', r'~^boost::multi_array<unsigned char, 2ul.*>::resize<|^boost::multi_array<unsigned char, 2ul.*& boost::multi_array<.*::resize<|^boost::multi_array<unsigned char.*::resize\(': 'c_resize',
    r'~std::vector<envire::TraversabilityClass, .*>::resize\(unsigned long\)': 'c_classes_resize', r'~std::vector<double, .*>::resize\(unsigned long, double const&\)': 'c_resize_d', r'~std::vector<unsigned long, .*>::resize\(unsigned long\)': 'c_resize_s',
    'envire::TraversabilityGrid::computeStatistic(base::Pose2D const&, double, double, envire::TraversabilityStatistic&) const': 'c_compute', r'~Eigen::operator<< ?<': 'c_print', 'envire::TraversabilityStatistic::~TraversabilityStatistic()': 'c_dtor'}
UNITS = [dict(cpp='M04.cpp', cflags=CFLAGS, jobs=[J(f) for f in ('h_class', 'h_class_set', 'h_class_get', 'h_register', 'h_cell', 'h_prob', 'h_both', 'h_probability_cb', 'h_stat_new', 'h_stat_add')] + [J('h_worst', ['inv_rng', 'inv_seen', 'inv_cur', 'inv_none', 'inv_lo'])], contracts=CONTRACTS)]
NATIVE = NAT('M04', '300 histories of class registrations, statistics and traversability grids with copies and rectangles', src=ENVSRC + ['maps/GridBase.cpp', 'maps/Grids.cpp', 'maps/TraversabilityGrid.cpp', 'tools/BresenhamLine.cpp', 'tools/RadialLookUpTable.cpp', 'tools/BoxLookUpTable.cpp'])

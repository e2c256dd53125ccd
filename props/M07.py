from envspec import *
DEADLINE = 100
V = '~^std::vector<envire::GaussianMixture<double, 2.*>::Parameter.*>::operator\\[\\]\\(unsigned long\\)'
UNITS = [dict(cpp='M07.cpp', jobs=[dict(fn='h_' + f) for f in ('stats_new', 'insert', 'insert_one', 'update', 'eval1', 'eval2')] + [
    dict(fn='h_mix', loops=LOOPS(('inv_e', ['double', 'int64'])), contracts={'~^envire::Gaussian<double, 2.*>::eval\\(': 'c_eval'}),
    dict(fn='h_normalize', loops=LOOPS(('inv_d', []), ('inv_s', ['double', 'int64']), ('inv_n', ['int64'])), contracts={V: 'c_at'})])]
NATIVE = dict(cpp='M07.cpp', src=[], libs=[], what='statistics, densities and mixtures in 1 to 4 dimensions (4000 each), 800 clusterings with up to 6 EM steps, sampling')

from envspec import *
C = dict(HANDLE); C.update(RELEASE); C.update({r'~^envire::Holder<VA>::Holder\(\)': 'c_newholder', '__cxa_pure_virtual': 'c_pure', r'~^envire::Holder<V[AB]>::clone\(\) const': 'c_clone', r'~^envire::Holder<V[AB]>::~Holder\(\)': 'c_delete'})
S = LOOPS(('inv_delg', ['iter']), 'inv_delo', 'inv_keep', 'inv_keepo')
S2 = LOOPS(('inv_delg', ['iter']), ('inv_copied', ['iter']), 'inv_delo', 'inv_keep', 'inv_keepo')
DEADLINE = 100
UNITS = [dict(cpp='E09.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS, jobs=[dict(fn='h_' + f) for f in ('hasData', 'removeKey', 'getData', 'getDataConst', 'hasDataT', 'flags')] + [dict(fn='h_removeAll', loops=S)] + [dict(fn='h_' + f, loops=S2) for f in ('copy', 'assign', 'self')])]
NATIVE = NAT('E09', 'random histories (60 operations, 3 layers, 7 keys, 2 types of metadata), ids and clones of maps')
ASSUMPTIONS = ['a holder is held by one entry of one layer', 'holders of the two types of the harness stand for all types']
TRUSTED = ['std::map<std::string,T> container contract', 'Holder<T>::clone clones and ~Holder deletes what it holds (native runs only)']

from envspec import *
C = dict(**HANDLE, **ATTACH, **RELEASE)
GEN = {'envire::Environment::getGenerator(envire::Layer*)': 'c_generator'}
IT = ['iter']; IL = ['iter', 'list']
INV = dict(h_addInput=[('inv_in_notseen', IT)], h_addOutput=[('inv_out_notseen', IT)], h_removeInput=[('inv_rm_in', IT)], h_removeOutput=[('inv_rm_out', IT)], h_removeAll=[],
           h_getInputs=[('inv_inputs', IL)], h_getOutputs=[('inv_outputs', IL)], h_getGenerator=[('inv_gen', IT)], h_layer_gen=[('inv_gen', IT)],
           h_op_addInput=[('inv_inputs', IL), ('inv_in_notseen', IT)], h_op_addOutput=[('inv_outputs', IL), ('inv_out_notseen', IT)], h_op_setInput=[('inv_inputs', IL), ('inv_in_notseen', IT)], h_op_setOutput=[('inv_outputs', IL), ('inv_out_notseen', IT)],
           h_op_remove=[('inv_rm_in', IT), ('inv_rm_out', IT)])
UNITS = [dict(cpp='E04.cpp', rewrite=REWRITE, cflags=CFLAGS, contracts=C, opts=OPTS,
              jobs=[dict(fn=f, loops=LOOPS(*i)) for f, i in INV.items()] +
                   [dict(fn=f, contracts=dict(GEN), loops=LOOPS(('inv_rm_out', IT)), opts=dict(vcalls={'envire::Operator::updateAll()': 'c_updateAll'})) for f in ('h_layer_detach', 'h_layer_update')])]
NATIVE = NAT('E04', 'random histories (120 operations, operators and layers)')

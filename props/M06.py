from envspec import LOOPS, CFLAGS
I = ['int32']; II = ['lint32', 'int32']
RL = [('inv_rng', I), ('inv_rows_d', I), ('inv_cols_d', II), ('inv_rows_a', I), ('inv_cols_a', II)]
BL = [('inv_rng', I), ('inv_zero_rows', I), ('inv_zero_cols', II), 'inv_fx', 'inv_fy', ('inv_entry', [])]
J = lambda fn, l=(): dict(fn=fn, loops=LOOPS(*l))
UNITS = [dict(cpp='M06.cpp', jobs=[J('h_radial', RL), J('h_radial_get'), J('h_radial_again'), dict(fn='h_box', contracts={'envire::BoxLookUpTable::computeDistances()': 'c_compute'}), J('h_box_compute', BL), J('h_box_again'), J('h_box_get')])]
NATIVE = dict(cpp="M06.cpp", src=["tools/RadialLookUpTable.cpp", "tools/BoxLookUpTable.cpp"], what="every cell of 145 radial tables; 300 points each of about 200 box tables, kept and recomputed; points around the table")

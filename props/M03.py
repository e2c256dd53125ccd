from envspec import *
S = {'envire::SurfacePatch::updatePlane()': 'c_nop'}
M = {r'~^envire::SurfacePatch::mergeMLS\(': 'c_mls', r'~^envire::SurfacePatch::mergeSum\(': 'c_sum', r'~^envire::SurfacePatch::mergePlane\(': 'c_plane', r'~^envire::SurfacePatch::setColor\(': 'c_color'}
DEADLINE = 100
UNITS = [dict(cpp='M03.cpp', jobs=[dict(fn='h_' + f) for f in ('kalman_far', 'kalman_fuse', 'kalman_block', 'kalman_cover', 'kalman_negative', 'sum', 'distance', 'overlap', 'new')] + [dict(fn='h_plane', contracts=S), dict(fn='h_merge', contracts=M)])]
NATIVE = dict(cpp='M03.cpp', src=[], libs=[], what='20000 pairs of patches per update model, planes')
ASSUMPTIONS = ['patches have a positive deviation; horizontal ones no height']
TRUSTED = ['numeric::PlaneFitting (stub: weighted sums)']

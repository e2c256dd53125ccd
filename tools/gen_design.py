# DESIGN.md = design_head.md + one section per property (from props_text, evidence) + design_tail.md
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props_text import PROPS
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
out = [open(D + '/design_head.md').read(), '## The properties\n\n']
for p in PROPS:
    out.append('### %s — %s\n\n' % (p['id'], p['title']))
    if p['na']: out.append('Not applicable: %s\n\n' % p['na']); continue
    out.append('Decided by: %s.\n\n' % p['note'])
    out += ['* %s — %s\n' % m for m in p['mech']]
    out.append('\nWhy tests cannot: %s. Proved in `props/%s.cpp`, replayed and cross-checked by `native/%s.cpp`.\n\n' % (p['why'], p['id'], p['id']))
out.append(open(D + '/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out))

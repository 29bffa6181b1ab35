"""Records what the last quick runs cost, for DESIGN.md."""
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = f'{R}/tools/design/cost.json'
c = json.load(open(f))
for e in glob.glob(f'{R}/evidence/*.json'):
    if 'replay' in e: continue
    d = json.load(open(e)); v = d['coverage']
    if d['tier'] == 'quick' and d['violations'] == 0 and 'undecided' not in v: c[d['property']] = [round(v['explore_s']), v['states'], v['queries_discharged'], round(v['solver_s'])]
json.dump(c, open(f, 'w'), sort_keys=True)

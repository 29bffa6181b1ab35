"""Writes DESIGN.md from tools/design/*.md, the check table, findings and seeded bugs."""
import json, glob, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/tools', R + '/tools/design']
sys.dont_write_bytecode = True
import checks, oracles
rd = lambda n: open(f'{R}/tools/design/{n}').read()
props = [json.loads(l) for l in open(f'{R}/properties.jsonl')]
cost = json.load(open(f'{R}/tools/design/cost.json'))
out = [rd('1_approach.md'), '## 2. The properties\n\n`model_checking` is the level of all of them: exhaustive within the bounds, by solver. Cost: time to explore on 8 cores once built (the build is shared by all checks and takes about 25 s); paths; queries put to Z3 (most branch questions are answered without one).\n']
for p in props:
    if p['id'] not in checks.CHECKS: continue
    c = checks.CHECKS[p['id']]; how, oracle = oracles.M[p['id']]
    k = cost.get(p['id'])
    out.append(f"### {p['id']}: {p['title']}\n\n{how}\n\n*Oracle.* {oracle}\n\n*Bounds (quick).* {c['bounds']}" + (f" *Thorough:* {c['thorough_bounds']}" if 'thorough_bounds' in c else '')
        + (f"\n\n*Outside.* {c['outside']}" if c.get('outside') else '') + (f"\n\n*Assumptions.* {' '.join(c['assumptions'])}" if c.get('assumptions') else '')
        + (f"\n\n*Cost (quick).* {len(c['quick'])} jobs, {k[0]:.0f} s, {k[1]} paths, {k[2]} queries, {k[3]:.0f} s in the solver." if k else '') + '\n')
fixed = json.load(open(f'{R}/known_findings.json'))
table = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(f"| {f['property']} | {f['commit']} | {f['what']} |" for f in fixed if f['status'] == 'fixed')
out.append(rd('3_findings.md').replace('@FIXED@', table))
out.append(rd('4_na.md').replace('@NA@', '\n'.join(f'* **{k}**: {v}' for k, v in checks.NOT_APPLICABLE.items())))
b = '| bug | breaks | needs | check |\n|---|---|---|---|\n'
missed = json.load(open(f'{R}/tools/design/missed.json'))
for f in sorted(glob.glob(f'{R}/seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[-2]
    b += f"| {i} | {m['what_it_breaks']} | {m['needs']} | {'missed: ' + missed[i] if i in missed else m['property'] + ' catches it'} |\n"
out.append(rd('5_bugs.md').replace('@BUGS@', b.rstrip()).replace('@MISSES@', ''))
for f in ('6_robust.md',):
    if os.path.exists(f'{R}/tools/design/{f}'): out.append(rd(f))
open(f'{R}/DESIGN.md', 'w').write('\n'.join(x.rstrip() + '\n' for x in out))

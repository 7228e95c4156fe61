#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; checks do not use it)."""
import json, os
from props import PROPS, NOT_APPLICABLE
import checks
here = os.path.dirname(os.path.abspath(__file__))
TECH = ('bounded symbolic execution of the LLVM IR compiled from /repo (own executor, engine/) with every obligation '
        'discharged by Z3; counterexamples replayed natively against the real code')
out, man = [], []
for p in PROPS:
    mech = [dict(name=n, where=w) for n, w in p['mech']]
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=mech)))
    if p['id'] in checks.CHECKS:
        c = checks.CHECKS[p['id']]
        man.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
            thorough_cmd='python3 check.py %s thorough' % p['id'], technique=TECH, level='model_checking',
            level_note='Bounds: ' + c['bounds'] + ('. Assumptions: ' + '; '.join(c['assumptions']) if c['assumptions'] else '')))
        assert len(p['title']) <= 80, p['id']
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
claimed = {m['property'] for m in man}
for p in PROPS:
    if p['id'] not in claimed and p['id'] not in NOT_APPLICABLE:
        na.append(dict(property=p['id'], reason='check not built yet'))
open(here + '/properties.jsonl', 'w').write(''.join(json.dumps(o) + '\n' for o in out))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=man, not_applicable=na,
    notes='See DESIGN.md. One executor (engine/) and one driver (check.py) serve every check; harness/ holds the symbolic drivers.'),
    open(here + '/MANIFEST.json', 'w'), indent=1)

# ---- DESIGN.md
import re, glob
from props import METHOD, COST, MUT
sec = []
for p in PROPS:
    i = p['id']; c = checks.CHECKS.get(i)
    sec.append('### %s %s\n%s\n\n- Method: %s\n- Anchors: %s\n- Bounds: %s%s\n- Cost (quick): %s\n' % (i, p['title'], p['statement'], METHOD.get(i, ''),
        ', '.join(p['files']), c['bounds'] if c else '-', ('\n- Assumptions: ' + '; '.join(c['assumptions'])) if c and c['assumptions'] else '', COST.get(i, '?')))
fx = []
for l in open(here + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: fx.append('| %s | %s | %s |' % m.groups())
sd = []
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); sd.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
t = open(here + '/design.in.md').read()
t = t.replace('@@PROPS@@', '\n'.join(sec)).replace('@@FIXES@@', '| Property | Commit | What failed |\n|---|---|---|\n' + '\n'.join(fx))
t = t.replace('@@SEEDED@@', '| Planted bug | Caught by check | What it breaks | Needs |\n|---|---|---|---|\n' + '\n'.join(sd)).replace('@@MUT@@', MUT)
open(here + '/DESIGN.md', 'w').write(t)
print(len(out), 'properties', len(man), 'claimed', [n['property'] for n in na])

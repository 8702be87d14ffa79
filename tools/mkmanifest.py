"""Writes MANIFEST.json: one check per property that has a module in pbt/props."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(root, 'tools', 'technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'pbt', 'props', i.lower() + '.py')):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3-vt pbt/check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt pbt/check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=t.get('technique', 'property-based testing (Hypothesis) against a reference model'),
                           level='exploration',
                           level_note=t.get('note', 'Search over generated cases; no absence proof. Trusts the oracle in pbt/props/%s.py, numpy and dolfin.' % i.lower())))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all checks use the public Python API and the built modules.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])

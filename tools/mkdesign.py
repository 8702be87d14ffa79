"""DESIGN.md from tools/design/*.md, the property modules and the known-findings file."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'
rd = lambda f: open(V + f).read()
how = json.loads(rd('tools/design/how.json'))
out = [rd('tools/design/head.md').rstrip(), '', '## Per property', '']
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    i = p['id']
    t = ast.parse(rd('pbt/props/%s.py' % i.lower()))
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'CASES')}
    out += ['### %s %s' % (i, p['title']), '', '* Decided by: ' + how[i],
            '* Generated and counted: ' + c['RULE'],
            '* Bounds and assumptions: ' + '; '.join(c['ASSUMPTIONS']) + '.',
            '* Cases: %d quick, %d thorough.' % (c['CASES']['quick'], c['CASES']['thorough']), '']
out += ['## Defects found in lyrana/dt and repaired (one `fix:` commit each)', '',
        '| property | commit | what failed |', '|---|---|---|']
for f in json.loads(rd('known_findings.json'))['fixed']:
    w = f.split(' ', 3)
    out.append('| %s | %s | %s |' % (w[1].split('=')[1], w[2], w[3]))
out += ['', '## Planted bugs (seeded/) and the check that catches each', '',
        'Each is caught by the check of its own property at quick tier (exit 1 with the VIOLATION line); `tools/mkbugs.py` builds the',
        'folders from `tools/bugs`, `tools/trybug.sh ID` applies one, runs the stable tests and the check, and undoes it.', '',
        '| bug | caught by | breaks | needs |', '|---|---|---|---|']
for b in sorted(os.listdir(V + 'seeded')):
    m = json.loads(rd('seeded/%s/meta.json' % b))
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
out += ['', rd('tools/design/tail.md').rstrip(), '']
open(V + 'DESIGN.md', 'w').write('\n'.join(out))

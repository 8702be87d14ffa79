"""Writes the 'fixed' list of known_findings.json from the fix: commits of /repo; the property of each is given here by subject."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(root, 'tools', 'fixprop.json')))
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '91c827e..HEAD'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p, w = PROP[s[5:]]
        out.append('fixed: property=%s %s %s' % (p, h, w))
f = os.path.join(root, 'known_findings.json')
d = json.load(open(f)); d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print(len(out))

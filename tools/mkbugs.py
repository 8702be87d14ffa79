"""Writes seeded/<id>/ from the bug definitions in tools/bugs/*.py (each: PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], DEMO and optional LIBS; or, without DEMO,
a case in tools/bugs/<id>.json that the demo replays with its own copy of the case runner).
Usage: python3 tools/mkbugs.py [id ...]   (patches are made against /repo's HEAD)"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
REPLAY = '''# Runs one case (case.json) against the code in /repo and compares the outcome with what it must be.
import importlib, json, os, sys, traceback
import dt_pybind11_bridge, dolfin
dolfin.set_log_level(50)
import Dolfin_Module, Particle_Module, DT_Module, SegmentedArrayPair_Module, RecordedData_Module
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import core
mod = importlib.import_module('props.%s')
if hasattr(mod, 'preload'):
    mod.preload()
ctx = core.Ctx(os.getcwd())
case = json.load(open(os.path.join(D, 'case.json')))
r = 0
try:
    ctx.enter()
    mod.run(case, ctx)
except core.Discard:
    pass
except BaseException:
    traceback.print_exc()
    r = 1
sys.stdout.flush(); sys.stderr.flush()
os._exit(r)
'''
for f in sorted(glob.glob(os.path.join(root, 'tools', 'bugs', '*.py'))):
    bid = os.path.basename(f)[:-3]
    if want and bid not in want:
        continue
    sp = importlib.util.spec_from_file_location(bid.replace('-', '_'), f)
    b = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(b)
    tmp = tempfile.mkdtemp(prefix='bug')
    wt = os.path.join(tmp, 'wt')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD'])
    try:
        for e in b.EDITS:
            fn, old, new = e[:3]
            p = os.path.join(wt, fn)
            s = open(p).read()
            if len(e) == 4:
                i = -1
                for _ in range(e[3]):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            else:
                assert s.count(old) == 1, (bid, fn, s.count(old))
                s = s.replace(old, new)
            open(p, 'w').write(s)
        d = os.path.join(root, 'seeded', bid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = subprocess.check_output(['git', '-C', wt, 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        json.dump(dict(property=b.PROP, needs=b.NEEDS, what_it_breaks=b.BREAKS), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if hasattr(b, 'DEMO'):
            open(os.path.join(d, 'demo.py'), 'w').write(b.DEMO.lstrip('\n'))
        else:
            open(os.path.join(d, 'demo.py'), 'w').write(REPLAY % b.PROP.lower())
            shutil.copy(f[:-3] + '.json', os.path.join(d, 'case.json'))
            for l in glob.glob(os.path.join(root, 'pbt', '*.py')):
                if os.path.basename(l) not in ('check.py', 'worker.py', 'dtgen.py'):
                    shutil.copy(l, d)
            need, have = [b.PROP.lower()], set()
            while need:
                m = need.pop()
                if m in have:
                    continue
                have.add(m)
                src = os.path.join(root, 'pbt', 'props', m + '.py')
                os.makedirs(os.path.join(d, 'props'), exist_ok=True)
                shutil.copy(src, os.path.join(d, 'props'))
                for line in re.findall(r'from props import ([\w, ]+)', open(src).read()):
                    need += [q.strip() for q in line.split(',')]
        for l in getattr(b, 'LIBS', ()):
            shutil.copy(os.path.join(root, 'pbt', l), d)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: behaviour is right; non-zero: it is not\nD="$(cd "$(dirname "$0")" && pwd)"\n. /opt/vp/env.sh\n'
            'S="$(mktemp -d)"; trap \'rm -rf "$S"\' EXIT\ncd "$S" && timeout 250 /opt/venv/bin/python "$D/demo.py" > "$S/out" 2>&1\nr=$?\ntail -5 "$S/out"\nexit $r\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        print(bid, len(diff))
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
        shutil.rmtree(tmp, ignore_errors=True)

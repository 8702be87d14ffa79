"""Driver of every check: `python3-vt /verif/pbt/check.py C01 [--tier quick|thorough] [--replay FILE]`.

The driver rebuilds the C++ modules from /repo's working tree, starts SHARDS generator processes
(Hypothesis, each with its own seed derived from VERIF_SEED) and gives each one a worker process
(/opt/venv python with dolfin and the code of /repo) that runs one generated case at a time.
A case is plain JSON, so a failing case is shrunk by Hypothesis and saved as the replay file.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the check itself
could not run (build failure, harness error).
"""
import argparse, fcntl, glob, hashlib, importlib, json, os, select, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
BUDGET = {'quick': 170.0, 'thorough': 660.0}     # seconds of generation per shard; never a verdict
SHRINK_S = {'quick': 40.0, 'thorough': 90.0}
if os.environ.get('VERIF_SHRINK_S'):
    SHRINK_S = dict.fromkeys(SHRINK_S, float(os.environ['VERIF_SHRINK_S']))


def worker_env():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], stdout=subprocess.PIPE, check=True).stdout
    env = {}
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            env[k.decode()] = v.decode()
    env.pop('LD_PRELOAD', None)
    return env


def build():
    """Rebuild the C++ modules from /repo. Serialised, so parallel checks do not collide."""
    os.makedirs('/opt/dt-build', exist_ok=True)
    with open('/tmp/.dt-verif-build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; bash /opt/vp/build_solibs.sh'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode(errors='replace')[-4000:])
        print('ERROR: the C++ modules of /repo do not build')
        sys.exit(2)


class HarnessError(Exception):
    pass


class Worker:
    """One worker process tree; run(case) -> result dict."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = tempfile.mkdtemp(prefix='dtv-%s-' % prop)
        r, w = os.pipe()
        self.rfd = r
        env = worker_env()
        env['VERIF_RESULT_FD'] = str(w)
        self.p = subprocess.Popen(['/opt/venv/bin/python', os.path.join(HERE, 'worker.py'), prop, self.dir],
                                  stdin=subprocess.PIPE, stdout=open(os.path.join(self.dir, 'zygote.log'), 'wb'),
                                  stderr=subprocess.STDOUT, env=env, cwd=self.dir, pass_fds=(w,),
                                  preexec_fn=os.setsid)
        os.close(w)
        self.buf = b''
        hello = self._recv(180)
        if hello.get('status') != 'ready':
            log = open(os.path.join(self.dir, 'zygote.log'), errors='replace').read()[-3000:]
            self.close()
            if hello.get('status') == 'import-failed':
                raise ImportBroken(hello.get('msg', '') + log)
            raise HarnessError('worker did not start: %r %s' % (hello, log))

    def _recv(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return {'status': 'no-answer'}
            rl, _, _ = select.select([self.rfd], [], [], left)
            if not rl:
                continue
            d = os.read(self.rfd, 1 << 16)
            if not d:
                return {'status': 'eof'}
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def run(self, case):
        data = json.dumps(case).encode()
        self.p.stdin.write(b'%012d' % len(data) + data)
        self.p.stdin.flush()
        r = self._recv(400)
        if r['status'] in ('eof', 'no-answer'):
            log = open(os.path.join(self.dir, 'zygote.log'), errors='replace').read()[-3000:]
            raise HarnessError('worker lost (%s): %s' % (r['status'], log))
        return r

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)


class ImportBroken(Exception):
    pass


class CaseFailed(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True)


def shard_main(prop, tier, seed, shard, nshards, outfile):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_S[tier]
    mod = importlib.import_module('props.' + prop.lower())
    out = dict(evaluations=0, nontrivial=[], labels={}, samples=[], error=None, failure=None, stopped=False)
    t0 = time.time()
    w = None

    def on_term(signum, frame):
        raise KeyboardInterrupt
    signal.signal(signal.SIGTERM, on_term)

    def save():
        with open(outfile + '.tmp', 'w') as f:
            json.dump(out, f)
        os.rename(outfile + '.tmp', outfile)
    state = dict(last_fail=None, nfail=0)
    known = [k for k in load_known(prop) if 'call_site' in k]
    seen = set()
    def execute(case):
        r = w.run(case)
        out['evaluations'] += 1
        for l in r.get('labels', []):
            out['labels'][l] = out['labels'].get(l, 0) + 1
        if r['status'] == 'harness-error':
            raise HarnessError(r.get('msg', ''))
        if r['status'] == 'ok':
            if r.get('nontrivial'):
                h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(out['samples']) < 2 and len(canon(case)) < 3000:
                        out['samples'].append(case)
        elif any(mod.known_match(k, case, r) for k in known):
            out['labels']['known-finding'] = out['labels'].get('known-finding', 0) + 1
        else:
            state['nfail'] += 1
            state['last_fail'] = (case, r)
            raise CaseFailed(r['status'] + ': ' + r.get('msg', ''))
    try:
        w = Worker(prop)
        # explicit cases first (regressions, boundary cases), divided over the shards
        ex = list(mod.examples(tier)) if hasattr(mod, 'examples') else []
        for i, case in enumerate(ex):
            if i % nshards == shard:
                execute(case)
        n = mod.CASES[tier]
        n = max(1, (n + nshards - 1) // nshards)
        kw = {}
        strat = mod.strategy(tier)

        @hypothesis.seed(seed * 1000003 + shard)
        @settings(max_examples=n, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck))
        @hypothesis.given(strat)
        def test(case):
            if state['nfail'] == 0 and time.time() - t0 > BUDGET[tier]:
                out['stopped'] = True
                return
            execute(json.loads(json.dumps(case)))
        test()
    except HarnessError as e:
        out['error'] = 'harness: %s' % e
    except ImportBroken as e:
        out['error'] = 'import: %s' % e
    except BaseException as e:
        if state['last_fail'] is None:
            import traceback
            out['error'] = 'driver: ' + traceback.format_exc()[-3000:]
    finally:
        if state['last_fail'] is not None:
            case, r = state['last_fail']
            out['failure'] = dict(case=case, result=r)
        if w:
            w.close()
        out['nontrivial'] = sorted(seen)
        save()


def load_known(prop):
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn))['known'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--out')
    ap.add_argument('--nobuild', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if a.shard is not None:
        shard_main(prop, tier, a.seed, a.shard, SHARDS, a.out)
        return 0
    t0 = time.time()
    if not a.nobuild:
        build()
    mod = importlib.import_module('props.' + prop.lower())
    if a.replay:
        d = json.load(open(a.replay))
        w = Worker(prop)
        r = w.run(d['case'])
        w.close()
        print(json.dumps(r, indent=1))
        if r['status'] == 'harness-error':
            return 2
        if r['status'] != 'ok':
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0
    # known findings: each is one recorded case; announce those that still fail
    known = load_known(prop)
    if known:
        w = Worker(prop)
        for k in known:
            r = w.run(k['case'])
            if r['status'] not in ('ok', 'harness-error'):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        w.close()
    tmp = tempfile.mkdtemp(prefix='dtv-run-')
    procs = []
    env = dict(os.environ, PYTHONHASHSEED='0', VERIF_SHARDS=str(SHARDS))
    for s in range(SHARDS):
        o = os.path.join(tmp, 's%d.json' % s)
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, '--tier', tier, '--seed', str(a.seed),
                              '--shard', str(s), '--out', o], env=env, cwd=tmp,
                             stdout=open(o + '.log', 'wb'), stderr=subprocess.STDOUT)
        procs.append((p, o))
    hard = time.time() + BUDGET[tier] + SHRINK_S[tier] + 400
    failure = None
    errors = []
    res = {}
    while len(res) < len(procs) and time.time() < hard and failure is None:
        time.sleep(0.1)
        for i, (p, o) in enumerate(procs):
            if i in res or p.poll() is None:
                continue
            if os.path.exists(o):
                res[i] = json.load(open(o))
                if res[i]['error']:
                    errors.append(res[i]['error'])
                if res[i]['failure']:
                    failure = res[i]['failure']
            else:
                res[i] = None
                errors.append('shard %d died: %s' % (i, open(o + '.log', errors='replace').read()[-2000:]))
    if failure is None and len(res) < len(procs):
        errors.append('shards did not finish in time')
    for p, o in procs:
        if p.poll() is None:
            p.send_signal(signal.SIGTERM)
            # the worker process group of that shard is ended through its stdin closing
            try:
                p.wait(5)
            except Exception:
                p.kill()
    got = [r for r in res.values() if r]
    nontriv = set()
    labels = {}
    samples = []
    for r in got:
        nontriv.update(r['nontrivial'])
        samples += r['samples']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=sum(r['evaluations'] for r in got), distinct_nontrivial=len(nontriv),
                            rule=mod.RULE, samples=samples[:4], labels=dict(sorted(labels.items())),
                            shards=SHARDS, stopped_by_budget=sum(1 for r in got if r['stopped']),
                            known_findings=len(known)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=1 if failure else 0)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if failure:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        h = hashlib.sha1(canon(failure['case']).encode()).hexdigest()[:10]
        rp = os.path.join(ROOT, 'replays', '%s-%s.json' % (prop, h))
        json.dump(dict(property=prop, case=failure['case'], result=failure['result']), open(rp, 'w'), indent=1)
        ev['coverage']['violation'] = dict(replay=rp, msg=failure['result'].get('msg', '')[:2000])
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    print('%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs' % (
        prop, tier, a.seed, ev['coverage']['evaluations'], len(nontriv), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        print(json.dumps(labels, indent=1, sort_keys=True))
    if failure:
        print(failure['result'].get('msg', '')[:3000])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        print('ERROR: ' + errors[0])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())

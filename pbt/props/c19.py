"""C19: the storage segment length, and unrelated species, do not affect the outcome."""
RULE = ('a case is a simulation (Python or C++; every geometry; 1-3 species, up to 20 particles each, 1-5 steps, traced particles, optionally a source) that is run with a segment length larger '
        'than any population and again with a drawn length of 1-9, or with one species alone. Compared: all records in order, counts, physical numbers, energies, deposited densities, '
        'trajectories and the snapshot file. Non-trivial: some population used at least two segments and changed size (or, for the species runs, the other species had particles).')
ASSUMPTIONS = ['sums and deposited values may differ by rounding (relative 1e-10); everything else must be identical']
CASES = {'quick': 1500, 'thorough': 16000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    src = st.one_of(st.none(), st.fixed_dictionaries(dict(sp=st.integers(0, 2), npc=st.integers(1, 3), every=st.integers(1, 3), seed=st.integers(0, 10 ** 6))))
    mode = st.sampled_from(['seg', 'seg', 'seg', 'alone'])
    py = dtgen.sim_strategy(dtgen.PY_ALL, traj=True, maxsteps=5, maxparts=20).map(lambda s: dict(s, impl='py'))
    cpp = dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), traj=True, maxsteps=5, maxparts=20).map(lambda s: dict(s, impl='cpp'))
    return st.tuples(st.one_of(py, cpp), src, mode, st.integers(1, 9), st.integers(0, 2)).map(lambda t: dict(t[0], source=t[1], mode=t[2], L2=t[3], keep=t[4]))


def preload():
    import simlib
    simlib.preload()


def same(a, b, who):
    import numpy as np
    from core import check
    check(len(a) == len(b), '%s: %d records, expected %d', who, len(b), len(a))
    for f in a.dtype.names:
        check(np.array_equal(a[f], b[f], equal_nan=a[f].dtype.kind == 'f'), '%s: %s is %s, expected %s', who, f, b[f], a[f])


def run(case, ctx):
    import numpy as np
    from core import check
    import runlib
    cpp = case['impl'] == 'cpp'
    src = case['source']
    names = [s['name'] for s in case['species']]
    alone = case['mode'] == 'alone'
    if alone:
        src = None
    A = runlib.run(case, cpp, L=1000, tag='a', source=src)
    if alone:
        keep = [names[case['keep'] % len(names)]]
        B = runlib.run(case, cpp, L=1000 if case['L2'] % 2 else case['L'], tag='b', only=keep)
        what = '%s alone' % keep[0]
    else:
        keep = names
        B = runlib.run(case, cpp, L=case['L2'], tag='b', source=src)
        what = 'segment length %d' % case['L2']
    S = A['S']

    def close(x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        return x.shape == y.shape and bool(np.all(np.abs(x - y) <= 1e-10 * max(np.abs(x).max() if x.size else 0.0, 1e-300)))
    nt = False
    for k, (a, b) in enumerate(zip(A['steps'], B['steps'])):
        for sn in keep:
            who = '%s, step %d, %s' % (what, k, sn)
            same(a['state'][sn], b['state'][sn], who)
            check(a['count'][sn] == b['count'][sn], '%s: count %s, expected %s', who, b['count'][sn], a['count'][sn])
            for f in ('number', 'KE', 'dof', 'cell'):
                check(close(a[f][sn], b[f][sn]), '%s: %s is %s, expected %s', who, f, b[f][sn], a[f][sn])
            n = len(a['state'][sn])
            nt = nt or (n > (case['L2'] if not alone else 0) and n != len(A['steps'][0]['state'][sn]))
        if not alone:
            check(a['total'] == b['total'], '%s, step %d: total %s, expected %s', what, k, b['total'], a['total'])
    for sn in keep:
        p, q = A['traj'][sn], B['traj'][sn]
        pk, qk = list(p), list(q)                 # in the order in which they were created
        check(pk == qk, '%s: trajectories of %s %s, expected %s', what, sn, qk, pk)
        for x, y in zip(pk, qk):
            same(p[x], q[y], '%s: trajectory of %s particle %d' % (what, sn, x))
    if not alone:
        check(len(A['file']) == len(B['file']), '%s: %d snapshots in the file, expected %d', what, len(B['file']), len(A['file']))
        for k, (a, b) in enumerate(zip(A['file'], B['file'])):
            check(sorted(a) == sorted(b), '%s: snapshot %d has %s, expected %s', what, k, sorted(b), sorted(a))
            for f in a:
                check(np.array_equal(a[f], b[f]), '%s: snapshot %d: %s is %s, expected %s', what, k, f, b[f], a[f])
    ctx.label(case['impl'], S.coord, case['mode'], 'source' if src else 'no-source')
    ctx.nontrivial(nt and (not alone or any(s['parts'] for s in case['species'] if s['name'] not in keep)))

"""C18: the Python and the C++ simulation agree."""
RULE = ('a case is a simulation supported by both implementations (charged in 1D, 2D, radial; neutral in 2D, 3D; both in 2D; 1-3 species, up to 14 particles each, reflecting and '
        'absorbing sides, 1-5 steps, segment length 1-7, 100 or 130, traced particles, optionally a source) that is run twice, with the Python and with the C++ movers and stores. Compared after every step: '
        'IDs in order, flags, cells, crossings exactly; positions, velocities, starts, weights, deposited densities and, at the end, trajectories to rounding. Or a sequence of steps in uniform fields. '
        'Non-trivial: at least one boundary was hit and some particles survive.')
ASSUMPTIONS = ['paths within 1e-7 cell sizes of a vertex/edge are not judged', 'double precision', 'the start position is not compared in uniform fields (no mesh)', 'boundary functions are the repository\'s pairs of Python and C++ functions']
CASES = {'quick': 2000, 'thorough': 16000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    src = st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(sp=st.integers(0, 2), npc=st.integers(1, 3), every=st.integers(1, 3), seed=st.integers(0, 10 ** 6))))
    sim = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), traj=True, maxsteps=5), src).map(lambda t: dict(t[0], source=t[1], impl='mesh'))
    uni = st.fixed_dictionaries(dict(
        impl=st.just('uniform'), L=st.sampled_from([1, 2, 3, 5, 100]),
        n=st.integers(1, 12), nsteps=st.integers(1, 4), seed=st.integers(0, 10 ** 6), qm=st.integers(0, 3), dt=st.sampled_from([1.0, 0.01, 3e-9])))
    return st.integers(0, 9).flatmap(lambda k: uni if k == 7 else sim)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import numpy as np
    from core import check
    if case['impl'] == 'uniform':
        return uniform(case, ctx)
    import runlib
    A = runlib.run(case, False, tag='py', files=False, judge=True, source=case['source'])
    B = runlib.run(case, True, tag='cpp', files=False, source=case['source'])
    S = A['S']
    xs = S.g.scale
    hit = False
    for k, (a, b) in enumerate(zip(A['steps'], B['steps'])):
        for sn in S.P.species_names:
            p, q = a['state'][sn], b['state'][sn]
            who = 'step %d, %s' % (k, sn)
            check([int(v) for v in p['unique_ID']] == [int(v) for v in q['unique_ID']], '%s: Python has particles %s, C++ has %s', who, p['unique_ID'], q['unique_ID'])
            check(a['count'][sn] == b['count'][sn], '%s: Python counts %s, C++ counts %s', who, a['count'][sn], b['count'][sn])
            for f in ('cell_index', 'crossings', 'bitflags'):
                check(np.array_equal(p[f], q[f]), '%s: %s of particles %s: Python %s, C++ %s', who, f, p['unique_ID'], p[f], q[f])
            check(np.array_equal(p['weight'], q['weight']), '%s: weights: Python %s, C++ %s', who, p['weight'], q['weight'])
            for r, s in zip(p, q):
                u = S.vec(r, 'u%s')
                um = max(float(np.abs(u).max()), 0.0)
                xt = (k + 1) * 1e-8 * (S.h + um * S.dt) + 1e-11 * xs
                ut = (k + 1) * 1e-8 * (um + (S.h / S.dt if S.F is not None else 0.0))
                for fmt, t in (('%s', xt), ('%s0', xt), ('u%s', ut)):
                    d = np.abs(S.vec(r, fmt) - S.vec(s, fmt)).max()
                    check(d <= t, '%s, particle %d: %s: Python %s, C++ %s', who, r['unique_ID'], [fmt % n for n in S.names], S.vec(r, fmt), S.vec(s, fmt))
            for f in ('dof', 'cell'):
                m = max(np.abs(a[f][sn]).max(), 1e-300)
                check(np.abs(a[f][sn] - b[f][sn]).max() <= 1e-6 * m, '%s: deposited %s density differs: Python %s, C++ %s', who, f, a[f][sn], b[f][sn])
            for f in ('number', 'KE'):
                check(abs(a[f][sn] - b[f][sn]) <= 1e-6 * (abs(a[f][sn]) + S.mass[sn] * (S.h / S.dt) ** 2 if f == 'KE' else abs(a[f][sn])), '%s: %s: Python %r, C++ %r', who, f, a[f][sn], b[f][sn])
    n0 = sum(len(v) for v in A['steps'][0]['state'].values())
    n1 = sum(len(v) for v in A['steps'][-1]['state'].values())
    hit = n1 < n0
    for sn in S.P.species_names:
        p, q = A['traj'][sn], B['traj'][sn]
        check(sorted(p) == sorted(q), 'trajectories of %s: Python %s, C++ %s', sn, sorted(p), sorted(q))
        for u in p:
            check(len(p[u]) == len(q[u]), 'trajectory of %s particle %d: Python has %d data, C++ %d', sn, u, len(p[u]), len(q[u]))
            for i in range(len(p[u])):
                for f in p[u].dtype.names:
                    x, y = float(p[u][f][i]), float(q[u][f][i])
                    um = max(abs(float(p[u]['u' + n][i])) for n in S.names)
                    sc = {'step': 0.0, 'unique_ID': 0.0, 't': S.dt, 'weight': 0.0}.get(f)
                    if sc is None:
                        sc = um + S.h / S.dt if f[0] == 'u' else (getattr(S, 'Eamp', 1.0) if f[0] == 'E' else S.h + um * S.dt + 1e-3 * xs)
                    check(abs(x - y) <= 1e-7 * sc, 'trajectory of %s particle %d, datum %d: %s is %r in Python, %r in C++', sn, u, i, f, x, y)
    ctx.label(S.coord, 'source' if case['source'] else 'no-source', case['kind'][1])
    ctx.nontrivial(hit and n1 > 0)


def uniform(case, ctx):
    import numpy as np
    from core import check
    import unilib
    R = []
    for cpp in (False, True):
        U = unilib.Uni(case, cpp)
        for k in range(case['n']):
            U.add(k)
        st = []
        for _ in range(case['nsteps']):
            U.advance()
            st.append(U.state())
        R.append(st)
    for k, (p, q) in enumerate(zip(*R)):
        check(np.array_equal(p['unique_ID'], q['unique_ID']), 'uniform fields, step %d: Python has %s, C++ has %s', k + 1, p['unique_ID'], q['unique_ID'])
        for f in p.dtype.names:
            if f in ('x0', 'y0', 'z0'):
                continue          # no mesh: the start of the step is not used, and only the C++ mover records it
            m = max([float(np.abs(p[n]).max()) for n in p.dtype.names if n.startswith('u')] or [0.0]) if f in ('ux', 'uy', 'uz') else float(np.abs(p[f].astype(float)).max())
            check(np.abs(p[f].astype(float) - q[f].astype(float)).max() <= 1e-11 * m, 'uniform fields, step %d: %s is %s in Python, %s in C++', k + 1, f, p[f], q[f])
    ctx.label('uniform')
    ctx.nontrivial(case['n'] > 1)

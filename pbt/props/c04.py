"""C04: leap-frog equations of motion."""
RULE = ('a case is a simulation (Python movers incl. the older all-species one, or C++; 1-3D Cartesian or radial; charged/neutral, 1-3 species) of 1-4 '
        'steps in a random solved field, optionally switched off per species, absent, with a random external field, or acceleration only; or steps in uniform '
        'fields. Velocity, position and recorded start of every particle that met no boundary are compared with the leap-frog formula. '
        'Non-trivial: at least two such particles with a non-zero acceleration (or neutrals with a non-zero velocity).')
ASSUMPTIONS = ['double precision runs', 'no C++ mover exists for an external field', 'the external field is the field times one normally distributed number per particle']
CASES = {'quick': 5000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    opt = st.fixed_dictionaries(dict(solved=st.sampled_from(['on', 'on', 'dict', 'dict', 'none', 'steps']), mask=st.integers(0, 7), accel=st.sampled_from([False, False, False, True]),
                                     emask=st.integers(0, 7), ext=st.sampled_from(['no', 'no', 'on', 'dict'])))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL), opt, st.sampled_from(['py', 'py', 'py-old', 'py-old'])).map(lambda t: dict(t[0], opt=t[1], impl=t[2]))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,)), opt).map(lambda t: dict(t[0], opt=dict(t[1], ext='no'), impl='cpp'))
    uni = st.fixed_dictionaries(dict(
        impl=st.sampled_from(['uniform-py', 'uniform-cpp']), L=st.sampled_from([1, 2, 3, 5, 100]),
        n=st.integers(1, 12), nsteps=st.integers(1, 4), seed=st.integers(0, 10 ** 6), qm=st.integers(0, 3), dt=st.sampled_from([1.0, 0.01, 3e-9])))
    return st.one_of(py, py, cpp, cpp, uni)


def preload():
    import simlib
    simlib.preload()


def vclose(a, b, tol):
    import numpy as np
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol))


def run(case, ctx):
    if case['impl'].startswith('uniform'):
        return uniform(case, ctx)
    import numpy as np
    import random
    from core import check, Discard
    import simlib, dtlib
    o = case['opt']
    names = [s['name'] for s in case['species']]
    on = {sn: o['solved'] in ('on', 'steps') or (o['solved'] == 'dict' and bool(o['mask'] >> k & 1)) for k, sn in enumerate(names)}
    ext = {sn: o['ext'] == 'on' or (o['ext'] == 'dict' and bool(o['emask'] >> k & 1)) for k, sn in enumerate(names)}
    extra = dict(apply_solved_electric_field=dict(on) if o['solved'] == 'dict' else None,
                 apply_random_external_electric_field=dict(ext) if o['ext'] == 'dict' else None)
    if o['ext'] != 'no':
        case = dict(case, bnd=['wall'] * 6)
    S = simlib.Sim(case, case['impl'] == 'cpp', ctrl_extra=extra)
    kw = {}
    if o['solved'] == 'none' or S.F is None:
        kw['neg_E_field'] = None
    if o['accel']:
        kw['accel_only'] = True
    X = None
    if o['ext'] != 'no' and S.P.charged_species:
        from Dolfin_Module import Field_C
        X = Field_C(S.M, element_type='DG', element_degree=0, field_type='vector')
        rng = random.Random(7 * o['emask'] + case['mesh']['seed'])
        xv = dtlib.fill(X, case['mesh']['seed'] + 3, 0.3 * S.h / (S.dt ** 2 * max(abs(v) for v in S.qom.values())))
        xd = [dtlib.cell_dofs(X, k) for k in range(S.dim)]
        for c in range(S.g.nc):
            if rng.random() < 0.3:
                for k in range(S.dim):
                    xv[xd[k][c][0]] = 0.0
        X.function.vector().set_local(xv)
        X.function.vector().apply('insert')
        kw['external_E_field'] = X
        np.random.seed(case['mesh']['seed'])
    nt = 0
    for step in range(case['nsteps']):
        before = {sn: S.state(sn) for sn in S.P.species_names}
        if o['solved'] == 'steps':                 # the field is given in some steps only
            kw['neg_E_field'] = S.F if o['mask'] >> step % 3 & 1 else None
        S.begin()
        S.advance(old=case['impl'] == 'py-old', **kw)
        for sn in S.P.species_names:
            after = {int(r['unique_ID']): r for r in S.state(sn)}
            ss = []
            charged = S.charge[sn] != 0.0
            for r in before[sn]:
                a = after.get(int(r['unique_ID']))
                if a is None:
                    continue
                who = 'step %d, %s particle %d' % (step + 1, sn, r['unique_ID'])
                x, u = S.vec(r), S.vec(r, 'u%s')
                ax, au, a0 = S.vec(a), S.vec(a, 'u%s'), S.vec(a, '%s0')
                E = S.E_at(int(r['cell_index']), x) if charged and on[sn] and kw.get('neg_E_field', S.F) is not None else np.zeros(S.pdim)
                acc = S.qom[sn] * S.dt * E
                utol = 1e-11 * (np.abs(u).max() + np.abs(acc).max()) + 1e-300
                if charged and X is not None and ext[sn]:
                    # only survivors are seen here, and every wall absorbs: no particle met a boundary
                    Xv = dtlib.pad([xv[xd[k][int(r['cell_index'])][0]] for k in range(S.dim)], S.pdim)
                    d = (au - u - acc) / (S.qom[sn] * S.dt)
                    n2 = float(Xv @ Xv)
                    s = float(d @ Xv) / n2 if n2 else 0.0
                    ss.append(s) if n2 else None
                    xtol = (utol + 1e-11 * np.abs(S.qom[sn] * S.dt * Xv).max() * (1 + abs(s))) / abs(S.qom[sn] * S.dt)
                    check(vclose(d, s * Xv, xtol), '%s: velocity change beyond the solved field, %s, is not a multiple of the external field %s', who, d, Xv)
                    check(abs(s) < 9.0, '%s: external field multiplied by %r', who, s)
                    if not o['accel']:
                        check(vclose(ax, x + au * S.dt, 1e-11 * (np.abs(x).max() + np.abs(au).max() * S.dt)), '%s: at %s, expected %s', who, ax, x + au * S.dt)
                    continue
                if o['accel'] and charged:
                    check(vclose(au, u + acc, utol), '%s (acceleration only): velocity %s, expected %s', who, au, u + acc)
                    check(np.array_equal(ax, x), '%s (acceleration only): moved from %s to %s', who, x, ax)
                    nt += 1 if np.abs(acc).max() > 0 else 0
                    continue
                p = S.predict(sn, r, u=u + acc)
                if p['hits'] or not p['alive']:
                    continue
                check(vclose(au, u + acc, utol), '%s: velocity %s, expected %s (was %s, E=%s)', who, au, u + acc, u, E)
                xe = x + (u + acc) * S.dt
                xtol = 1e-11 * (np.abs(x).max() + np.abs(u).max() * S.dt + np.abs(acc).max() * S.dt)
                check(vclose(ax, xe, xtol), '%s: at %s, expected %s', who, ax, xe)
                if p['crossings'] == 0:
                    check(np.array_equal(a0, x), '%s: recorded start %s, was at %s', who, a0, x)
                else:
                    check(vclose(a0, p['x0'], S.tol(r, p)), '%s: start of path in the last cell is %s, expected %s', who, a0, p['x0'])
                nt += 1 if (np.abs(acc).max() > 0 if charged else np.abs(u).max() > 0) else 0
            if X is not None and len(ss) >= 4:
                check(len(set(ss)) > 1, 'step %d, %s: every particle got the same random multiple of the external field', step + 1, sn)
                nt += 1
    ctx.label(case['impl'], S.coord, 'solved-' + o['solved'], 'ext-' + o['ext'], 'accel' if o['accel'] else 'move')
    ctx.nontrivial(nt >= 2)


def uniform(case, ctx):
    import numpy as np
    from core import check
    import unilib
    U = unilib.Uni(case, case['impl'] == 'uniform-cpp')
    for k in range(case['n']):
        U.add(k)
    N = unilib.NAMES
    E = np.array(U.E)
    for step in range(case['nsteps']):
        before = U.state()
        U.advance()
        after = U.state()
        check(len(before) == len(after), 'uniform-field step: %d particles became %d', len(before), len(after))
        for r, a in zip(before, after):
            check(case['impl'] == 'uniform-py' or all(a[k + '0'] == r[k] for k in N), 'uniform field, particle %d: recorded start %s, was at %s', r['unique_ID'], [a[k + '0'] for k in N], [r[k] for k in N])
            x, u = np.array([r[k] for k in N]), np.array([r['u' + k] for k in N])
            ue = u + U.qom * U.dt * E
            xe = x + ue * U.dt
            au, ax = np.array([a['u' + k] for k in N]), np.array([a[k] for k in N])
            check(vclose(au, ue, 1e-12 * (np.abs(u).max() + np.abs(ue).max())), 'uniform field, particle %d: velocity %s, expected %s', r['unique_ID'], au, ue)
            check(vclose(ax, xe, 1e-12 * (np.abs(x).max() + np.abs(xe).max())), 'uniform field, particle %d: at %s, expected %s', r['unique_ID'], ax, xe)
    ctx.label(case['impl'])
    ctx.nontrivial(case['n'] > 1 and np.abs(E).max() > 0)

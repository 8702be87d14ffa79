"""C10: deposition of particle weight on vertices and cells."""
RULE = ('a case is a simulation (Python or C++ store; 1-3D or radial; 1-3 species, up to 14 particles each, segment length 1-7, 100 or 130) of 0-3 steps; then each species is deposited '
        'on a vertex field that already holds values and on an empty cell field, some species twice, and the species are combined into a charge field. Oracle: barycentric '
        'coordinates computed from the vertex coordinates. Non-trivial: at least two species with particles, or more than one storage segment in use.')
ASSUMPTIONS = ['the cell field starts at zero (the operation divides the whole field by the cell volumes)']
CASES = {'quick': 5000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    extra = st.fixed_dictionaries(dict(steps=st.integers(0, 3), fseed=st.integers(0, 10 ** 6), twice=st.lists(st.booleans(), min_size=3, max_size=3), fields=st.sampled_from(['both', 'both', 'dof', 'cell'])))
    kw = dict(maxsteps=1, reflect=True)
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, **kw), extra).map(lambda t: dict(t[0], dep=t[1], impl='py'))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), **kw), extra).map(lambda t: dict(t[0], dep=t[1], impl='cpp'))
    return st.one_of(py, py, cpp)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import numpy as np
    from core import check, Discard
    import simlib, dtlib
    from Dolfin_Module import Field_C
    d = case['dep']
    S = simlib.Sim(case, case['impl'] == 'cpp')
    P, g = S.P, S.g
    for _ in range(d['steps']):
        for sn in P.species_names:
            for r in S.state(sn):
                S.predict(sn, r)              # discards paths too close to a tie
        S.begin()
        S.advance()
    vol = np.array([dtlib.cell_volume(g, c, S.radial) for c in range(g.nc)])
    rho_dict = {}
    nt, nonempty = False, 0
    wmax = 1.0
    for i, sn in enumerate(P.species_names):
        st = S.state(sn)
        nonempty += len(st) > 0
        nt = nt or len(st) > S.L
        times = 2 if d['twice'][i] and d['fields'] == 'dof' else 1
        dof = Field_C(S.M, element_type='CG', element_degree=1, field_type='scalar')
        cell = Field_C(S.M, element_type='DG', element_degree=0, field_type='scalar')
        other = Field_C(S.M, element_type='CG', element_degree=1, field_type='scalar')
        wtot = float(st['weight'].sum()) if len(st) else 0.0
        wmax = max(wmax, wtot)
        v0 = dtlib.fill(dof, d['fseed'] + i, max(wtot, 1.0)) if d['fields'] == 'dof' else np.zeros(dof.function_len)
        o0 = dtlib.fill(other, d['fseed'] + 9, 1.0)
        vd = dtlib.vertex_dofs(dof, g)
        cd = dtlib.cell_dofs(cell)[:, 0]
        want, wcell, wsum = v0.copy(), np.zeros(cell.function_len), 0.0
        for r in st:
            c = int(r['cell_index'])
            check(0 <= c < g.nc, '%s: stored particle without a cell', sn)
            want[vd[c]] += times * r['weight'] * g.bary(c, S.vec(r))
            wcell[cd[c]] += r['weight']
        for _ in range(times):
            P.accumulate_number_density(sn, dof if d['fields'] != 'cell' else None, cell if d['fields'] != 'dof' else None)
        tol = 1e-9 * max(wtot, 1.0 if d['fields'] == 'dof' else 0.0)
        if d['fields'] != 'cell':
            got = dtlib.values(dof)
            k = int(np.argmax(np.abs(got - want)))
            check(abs(got[k] - want[k]) <= tol, '%s, %d particles: vertex value %d is %r, expected %r (started at %r)', sn, len(st), k, got[k], want[k], v0[k])
            check(abs((got - v0).sum() - times * wtot) <= tol * 10, '%s: vertex values gained %r, weight deposited is %r', sn, (got - v0).sum(), times * wtot)
        if d['fields'] != 'dof':
            gc = dtlib.values(cell)
            for c in range(g.nc):
                w = wcell[cd[c]] / vol[c]
                check(abs(gc[cd[c]] - w) <= 1e-7 * w, '%s: density of cell %d is %r, expected %r', sn, c, gc[cd[c]], w)
            tot = sum(gc[cd[c]] * vol[c] for c in range(g.nc))
            check(abs(tot - wtot) <= tol * 10 + 1e-7 * wtot, '%s: cell densities integrate to %r, weight is %r', sn, tot, wtot)
        check(np.array_equal(dtlib.values(other), o0), '%s: deposition changed another field', sn)
        st2 = S.state(sn)
        check(st2.tobytes() == st.tobytes(), '%s: deposition changed the particles', sn)
        rho_dict[sn] = dof
    if d['fields'] != 'cell':
        q = Field_C(S.M, element_type='CG', element_degree=1, field_type='scalar')
        sc = max(abs(S.charge[sn]) for sn in P.species_names) * wmax
        q0 = dtlib.fill(q, d['fseed'] + 5, max(sc, 1e-30))
        before = {sn: dtlib.values(rho_dict[sn]) for sn in rho_dict}
        P.accumulate_charge_density_from_particles(rho_dict, q)
        want = q0 + sum(S.charge[sn] * before[sn] for sn in P.species_names)
        got = dtlib.values(q)
        k = int(np.argmax(np.abs(got - want)))
        check(np.abs(got - want).max() <= 1e-10 * max(sc, 1e-30) * 5, 'charge density: value %d is %r, expected %r', k, got[k], want[k])
        for sn in before:
            check(np.array_equal(dtlib.values(rho_dict[sn]), before[sn]), 'combining charges changed the number density of %s', sn)
    ctx.label(case['impl'], S.coord, d['fields'])
    ctx.nontrivial(nonempty > 0 and (nonempty > 1 or nt))

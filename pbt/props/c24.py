"""C24: a self-consistent run follows the discrete particle-in-cell equations, step after step."""
RULE = ('a case is an electrostatic simulation (1D, 2D or radial mesh; Python or C++ movers; 1-3 species, charged and neutral, up to 14 particles each; 1-6 steps) in which, at every step, the species are deposited on the vertices, '
        'combined into the charge, Poisson\'s equation is solved with generated potentials on generated parts of the boundary, and the particles are moved in the field found. Variations: fields cleared or made anew, charge scaled at the solve or not, linear solver, '
        'the solved field switched off for a species, direct or repeated solves, cell densities deposited too. Before each step the charge, potential, field and next state of each particle are recomputed in numpy from the '
        'particles in store and the mesh vertices (own shape functions, dense solve). Non-trivial: at least two steps, and the space charge moves particles noticeably.')
ASSUMPTIONS = ['potential of degree 1 and element-wise constant field', 'paths within 1e-7 cell sizes of a vertex/edge are not judged', 'meshes whose smallest height is below 1e-4 of the size are not judged']
CASES = {'quick': 2400, 'thorough': 16000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    val = st.one_of(st.just(0.0), st.integers(-3, 3).map(float), st.floats(-3, 3).map(lambda v: v if abs(v) > 1e-6 else 0.0))
    pic = st.fixed_dictionaries(dict(
        sel=st.integers(0, 2 ** 24 - 1), ends=st.booleans(), vals=st.tuples(val, val).map(list), unset=st.booleans(), esc=st.sampled_from([0.02, 0.3, 1.0, 3.0]),
        lin=st.sampled_from([['lu', None], [None, None], ['cg', 'ilu'], ['gmres', 'jacobi']]), factor=st.booleans(), anew=st.booleans(), twice=st.booleans(), cells=st.booleans(), off=st.sampled_from([None, None, 0, 1, 2]), reasm=st.booleans(), marks=st.sampled_from([[1, 2], [2, 1], [7, 4]])))
    both = [('x', 'charged'), ('xy', 'charged'), ('r', 'charged'), ('xy', 'both')]
    kw = dict(els=(0,), maxsteps=5)
    py = dtgen.sim_strategy(both + [('x', 'both')], **kw).map(lambda s: dict(s, impl='py'))
    old = dtgen.sim_strategy(both[:3], **kw).map(lambda s: dict(s, impl='py-old'))
    cpp = dtgen.sim_strategy(both, **kw).map(lambda s: dict(s, impl='cpp'))
    return st.tuples(st.one_of(py, py, cpp, cpp, old), pic, st.sampled_from([2, 3, 2, 4, 1, 5, 6])).map(lambda t: dict(t[0], pic=t[1], nsteps=t[2]))


def preload():
    import simlib
    from props import c11
    simlib.preload()
    c11.preload()


def run(case, ctx):
    import numpy as np, dolfin as df
    from core import check, Discard
    import dtlib, simlib
    from Dolfin_Module import Field_C
    import UserMesh_y_Fields_FE_XYZ_Module as FX, UserMesh_y_Fields_FE2D_Module as F2, UserMesh_y_Fields_Spherical1D_Module as FS
    import UserUnits_Module as U_M
    o = case['pic']
    S = simlib.Sim(case, case['impl'] == 'cpp')
    P, g, M, dim = S.P, S.g, S.M, S.dim
    if g.nc > 80 or g.hmin.min() < 1e-4 * g.scale:
        raise Discard()
    # the part of the boundary where the potential is given
    ext = sorted(f for f, vs in S.fv.items() if len(g.facet_cells[vs]) == 1)
    if dim == 1 or o['ends']:
        X = dtlib.box_coords(case['mesh'], g.X)
        lo, hi = X.min(0), X.max(0)
        on = lambda f, v: all(abs(X[i][0] - v) < 1e-9 * g.scale for i in S.fv[f])
        A, B = [f for f in ext if on(f, lo[0])], [f for f in ext if on(f, hi[0])]
    else:
        A = [f for i, f in enumerate(ext) if (o['sel'] >> (2 * i) % 24) & 3 == 1]
        B = [f for i, f in enumerate(ext) if (o['sel'] >> (2 * i) % 24) & 3 == 2]
    unset = S.radial and o['unset']
    if not A or not B:
        raise Discard()
    mk = df.MeshFunction('size_t', S.mesh, dim - 1, 0)
    for f in A:
        mk[f] = o['marks'][0]
    for f in B:
        mk[f] = o['marks'][1]
    qmax = max([abs(v) for v in S.qom.values()] + [1e-30])
    Eamp = o['esc'] * S.h / (S.dt ** 2 * qmax)
    va, vb = [v * Eamp * S.h for v in o['vals']]

    # reference: stiffness matrix of the vertices
    n = len(g.X)
    eps = U_M.MyPlasmaUnits_C.epsilon_0
    K = np.zeros((n, n))
    for c in range(g.nc):
        G, vol = g.grads(c), g.volume(c)
        if S.radial:
            a, b = sorted(float(x[0]) for x in g.V[c])
            vol = (b ** 3 - a ** 3) / 3
        K[np.ix_(g.C[c], g.C[c])] += eps * vol * G @ G.T
    fixed = {}
    for fs, v in ((A, None if unset else va), (B, vb)):
        for f in fs:
            for i in S.fv[f]:
                if v is not None:
                    if i in fixed and fixed[i] != v:
                        raise Discard()           # two values at one vertex
                    fixed[i] = v
    free = [i for i in range(n) if i not in fixed]
    fx = sorted(fixed)
    vfix = np.array([fixed[i] for i in fx])

    def solve(b):
        u = np.zeros(n)
        u[fx] = vfix
        if free:
            u[free] = np.linalg.solve(K[np.ix_(free, free)], b[free] - K[np.ix_(free, fx)] @ vfix)
        return u

    def number(st):
        d = np.zeros(n)
        for r in st:
            c = int(r['cell_index'])
            check(0 <= c < g.nc, 'a stored particle has no cell')
            d[g.C[c]] += r['weight'] * g.bary(c, S.vec(r))
        return d

    # strength of the space charge: from the initial particles
    rho0 = sum((S.charge[sn] * number(S.state(sn)) for sn in P.species_names), np.zeros(n))
    vsave, vfix = vfix, np.zeros(len(fx))
    u = solve(rho0)
    vfix = vsave
    e0 = max([np.abs(g.grads(c).T @ u[g.C[c]]).max() for c in range(g.nc)] + [0.0])
    if not 0 < e0 < 1e300:
        e0 = Eamp
    factor = Eamp / e0

    # what a user sets up
    phi = Field_C(M, 'CG', 1, 'scalar')
    cls = FS.UserPoissonSolve1DS_C if S.radial else FX.UserPoissonSolve1D_C if dim == 1 else F2.UserPoissonSolve2DCirc_C
    nm = ('xmin', 'xmax') if dim == 1 and not S.radial else ('rmin', 'rmax')
    solver = cls(phi, o['lin'][0], o['lin'][1], mk, {nm[0]: (o['marks'][0], 'unset' if unset else va), nm[1]: (o['marks'][1], vb)}, neg_electric_field=S.F)
    if o['reasm']:
        solver.pde_has_constant_coeffs = False
    new = lambda: Field_C(M, 'CG', 1, 'scalar')
    dens, Q = {sn: new() for sn in P.species_names}, new()
    cell = {sn: Field_C(M, 'DG', 0, 'scalar') for sn in P.species_names} if o['cells'] else None
    vd = dtlib.vertex_dofs(Q, g)
    v2d = {int(v): int(vd[c][k]) for c in range(g.nc) for k, v in enumerate(g.C[c])}
    order = [v2d[i] for i in range(n)]
    on = {sn: True for sn in P.species_names}
    if o['off'] is not None:
        on[P.species_names[o['off'] % len(P.species_names)]] = False
        S.ctrl.apply_solved_electric_field = dict(on)
    moved = 0
    for step in range(case['nsteps']):
        st = {sn: S.state(sn) for sn in P.species_names}
        want = {sn: number(st[sn]) for sn in st}
        rho = sum((S.charge[sn] * want[sn] for sn in st), np.zeros(n)) * factor
        u = solve(rho)
        ur = solve(np.abs(rho))
        usc = np.abs(u).max() + np.abs(ur).max() + np.abs(vfix).max(initial=0.0) + 1e-300
        E = np.array([-(g.grads(c).T @ u[g.C[c]]) for c in range(g.nc)])
        # the step of the program
        if o['anew']:
            dens, Q = {sn: new() for sn in P.species_names}, new()
        elif step:
            for F in list(dens.values()) + [Q]:
                F.set_values(0.0)
        for sn in P.species_names:
            if cell:
                cell[sn].set_values(0.0)
            P.accumulate_number_density(sn, dens[sn], cell[sn] if cell else None)
        P.accumulate_charge_density_from_particles(dens, Q)
        if o['factor']:
            solver.solve_for_phi(assembled_charge=Q, assembled_charge_factor=factor)
        else:
            R = new()
            R.multiply_add(Q, factor)
            solver.solve_for_phi(assembled_charge=R)
        if o['twice']:
            solver.solve_for_phi()
        who = 'step %d' % (step + 1)
        for sn in st:
            d, tot = dtlib.values(dens[sn])[order], float(st[sn]['weight'].sum()) if len(st[sn]) else 0.0
            check(np.abs(d - want[sn]).max() <= 1e-9 * tot, '%s: density of %s on the vertices is %s, expected %s', who, sn, d, want[sn])
        got = dtlib.values(phi)[order]
        check(np.abs(got - u).max() <= 1e-8 * usc, '%s: potential %s, expected %s', who, got, u)
        gE = -np.array([dtlib.values(S.F)[[S.cd[k][c][0] for k in range(dim)]] for c in range(g.nc)])
        etol = 1e-8 * usc / g.hmin.min()
        check(np.abs(gE - E).max() <= etol, '%s: field %s, expected %s', who, gE, E)
        for k in range(dim):
            S.fvals[[S.cd[k][c][0] for c in range(g.nc)]] = -E[:, k]
        pred = {sn: [S.predict(sn, r, apply_E=on[sn]) for r in st[sn]] for sn in st}
        S.begin()
        S.advance(old=case['impl'] == 'py-old')
        for sn in st:
            af = S.state(sn)
            alive = [(int(r['unique_ID']), p) for r, p in zip(st[sn], pred[sn]) if p['alive']]
            check([int(v) for v in af['unique_ID']] == [i for i, _ in alive], '%s: particles of %s are %s, expected %s', who, sn, af['unique_ID'], [i for i, _ in alive])
            for r, (i, p) in zip(af, alive):
                du = abs(S.qom[sn]) * S.dt * etol if on[sn] and S.charge[sn] else 0.0
                amp = (1 + len(p['hits'])) * (1 + p['crossings'])
                ut = amp * (1e-9 * np.abs(p['u']).max() + du)
                if du * S.dt > 1e-6 * S.h:
                    raise Discard()
                check(np.abs(S.vec(r, 'u%s') - p['u']).max() <= ut, '%s, %s particle %d: velocity %s, expected %s', who, sn, i, S.vec(r, 'u%s'), p['u'])
                check(np.abs(S.vec(r) - p['x']).max() <= ut * S.dt + 10 * S.tol(r, p), '%s, %s particle %d: at %s, expected %s', who, sn, i, S.vec(r), p['x'])
                check(int(r['cell_index']) == p['cell'], '%s, %s particle %d: in cell %d, expected %d', who, sn, i, r['cell_index'], p['cell'])
                moved += bool(S.charge[sn] and on[sn] and np.abs(p['E']).max() * abs(S.qom[sn]) * S.dt ** 2 > 1e-3 * S.h)
    ctx.label(case['impl'], S.coord, 'steps-%d' % case['nsteps'])
    ctx.nontrivial(case['nsteps'] > 1 and moved > 1)

"""C25: particles with more coordinates than the mesh."""
RULE = ('a case is a simulation on a 1D or 2D mesh whose particles have one or two coordinates more than the mesh (Python, older Python or C++ mover; charged in a solved field or neutral; '
        '1-3 species) of 1-4 steps with absorbing and reflecting sides. Initial look-up and creation, every survivor after each step (order, full position and velocity, start of the last '
        'stretch of its path, cell, crossings, weight), the deposited vertex and cell densities and the last recorded trajectory point are compared with a trace in the mesh '
        'coordinates along which the other coordinates move freely. Non-trivial: a survivor crossed a facet or was reflected while its other coordinates moved.')
ASSUMPTIONS = ['a path within 1e-7 cell sizes of a vertex/edge, in the mesh coordinates, is not judged (case discarded)', 'the C++ movers of charged species exist for matching dimensions only']
CASES = {'quick': 3500, 'thorough': 20000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    x = st.fixed_dictionaries(dict(tr=st.booleans(), dep=st.booleans(), fseed=st.integers(0, 10 ** 6)))
    py = st.tuples(dtgen.sim_strategy(dtgen.MORE_PY, traj=True), x, st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], x=t[1], impl=t[2]))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.MORE_CPP, traj=True), x).map(lambda t: dict(t[0], x=t[1], impl='cpp'))
    return st.one_of(py, cpp)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import numpy as np
    from core import check
    import simlib, dtlib
    ti = None
    if case['x']['tr']:
        from RecordedData_Module import TrajectoryInput_C
        nm = dtlib.COORDS[dtlib.CARTESIAN[case['mesh']['dim'] + case['more']]]
        ti = TrajectoryInput_C()
        ti.max_points, ti.extra_points = None, 10
        names = ['step', 't'] + list(nm) + ['u' + k for k in nm]
        ti.charged_dict = ti.neutral_dict = dict(names=names, formats=[int] + ['f8'] * (len(names) - 1))
    S = simlib.Sim(case, case['impl'] == 'cpp', traj=ti)
    P, g, dim, pd = S.P, S.g, S.dim, S.pdim
    check(P.particle_dimension == pd > dim, 'particle dimension %s', P.particle_dimension)
    eps = 1e-9 * S.h + 1e-13 * g.scale
    for sn in P.species_names:
        st, listed = S.state(sn), S.lists[sn]
        made = len(st) - len(listed)
        for i, r in enumerate(st):
            x = S.vec(r)
            check(0 <= r['cell_index'] < g.nc and g.depth(int(r['cell_index']), x) > -eps, 'initially %s particle %d at %s has cell %d', sn, r['unique_ID'], x, r['cell_index'])
            if i < made:
                check(not np.any(x[dim:]), 'particle %d created over the mesh is at %s', r['unique_ID'], x)
                check(bool(np.all(S.vec(r, 'u%s') != 0)), 'particle %d created with velocity %s', r['unique_ID'], S.vec(r, 'u%s'))
                check(np.array_equal(x, S.vec(r, '%s0')), 'particle %d created at %s has start %s', r['unique_ID'], x, S.vec(r, '%s0'))
            else:
                check(tuple(x) == listed[i - made][:pd] and tuple(S.vec(r, 'u%s')) == listed[i - made][2 * pd:3 * pd], 'listed %s particle %s is stored as %s', sn, listed[i - made], r)
    nt = False
    acts = set()
    for step in range(case['nsteps']):
        res = S.step(old=case['impl'] == 'py-old')
        for sn in P.species_names:
            ids = [int(r['unique_ID']) for r in S.state(sn)]
            want = [int(r['unique_ID']) for s, r, p, a in res if s == sn and p['alive']]
            check(ids == want, 'step %d, %s: stored IDs %s, expected survivors %s', step + 1, sn, ids, want)
        for sn, r, p, a in res:
            if not p['alive']:
                acts.add('absorb')
                continue
            who = 'step %d, %s particle %d at %s moving %s' % (step + 1, sn, r['unique_ID'], S.vec(r), p['u1'] * S.dt)
            far = abs(float(np.abs(S.vec(r)).max())) + float(np.abs(p['u1']).max()) * S.dt
            tol = (S.tol(r, p) + 1e-13 * far) * (1 + len(p['hits']))
            for k, nmk in enumerate(S.names):
                side = 'mesh' if k < dim else 'additional'
                check(abs(a['u' + nmk] - p['u'][k]) <= 1e-10 * (np.abs(p['u1']).max() + 1e-300), '%s: %s velocity u%s is %r, expected %r', who, side, nmk, a['u' + nmk], p['u'][k])
                check(abs(a[nmk] - p['x'][k]) <= tol, '%s: %s coordinate %s is %r, expected %r', who, side, nmk, a[nmk], p['x'][k])
                check(abs(a[nmk + '0'] - p['x0'][k]) <= tol, '%s: start %s0 of the last stretch is %r, expected %r', who, nmk, a[nmk + '0'], p['x0'][k])
            check(int(a['cell_index']) == p['cell'] and int(a['crossings']) == p['crossings'], '%s: cell %d after %d crossings, expected %d after %d', who, a['cell_index'], a['crossings'], p['cell'], p['crossings'])
            check(a['weight'] == r['weight'] and a['bitflags'] == r['bitflags'], '%s: weight %r and flags %d, were %r and %d', who, a['weight'], a['bitflags'], r['weight'], r['bitflags'])
            acts |= set(h['act'] for h in p['hits'])
            nt = nt or (p['crossings'] > 0 and bool(np.any(p['u1'][dim:])))
        if ti is not None:
            P.record_trajectory_data(S.ctrl.timeloop_count, S.ctrl.time, neg_E_field=S.F)
            T = P.traj_T
            for sn in P.species_names:
                for r in S.state(sn):
                    if not int(r['bitflags']) & simlib.TRAJ:
                        continue
                    k = T.particle_unique_id_list[sn].index(int(r['unique_ID']))
                    n = T.trajectory_length[sn][k]
                    if n >= T.npoints:
                        continue
                    d = T.data_list[sn][k][n - 1]
                    got = np.array([d[q] for q in S.names] + [d['u' + q] for q in S.names])
                    check(int(d['step']) == step + 1 and np.array_equal(got, np.concatenate([S.vec(r), S.vec(r, 'u%s')])), 'step %d, %s particle %d is %s, trajectory says %s', step + 1, sn, r['unique_ID'], r, d)
    if case['x']['dep']:
        from Dolfin_Module import Field_C
        for i, sn in enumerate(P.species_names):
            st = S.state(sn)
            dof = Field_C(S.M, element_type='CG', element_degree=1, field_type='scalar')
            cell = Field_C(S.M, element_type='DG', element_degree=0, field_type='scalar')
            vd, cd = dtlib.vertex_dofs(dof, g), dtlib.cell_dofs(cell)[:, 0]
            want, wc = np.zeros(dof.function_len), np.zeros(cell.function_len)
            for r in st:
                c = int(r['cell_index'])
                want[vd[c]] += r['weight'] * g.bary(c, S.vec(r))
                wc[cd[c]] += r['weight'] / dtlib.cell_volume(g, c, False)
            P.accumulate_number_density(sn, dof, cell)
            tol = 1e-9 * max(float(st['weight'].sum()), 1e-300) if len(st) else 0.0
            got = dtlib.values(dof)
            k = int(np.argmax(np.abs(got - want)))
            check(abs(got[k] - want[k]) <= tol, '%s, %d particles: vertex value %d is %r, expected %r', sn, len(st), k, got[k], want[k])
            gc = dtlib.values(cell)
            check(bool(np.all(np.abs(gc - wc) <= 1e-7 * np.abs(wc))), '%s: cell densities %s, expected %s', sn, gc, wc)
    ctx.label(case['impl'], '%dD-mesh-%s' % (dim, S.coord), *['act-' + str(a) for a in acts])
    ctx.nontrivial(nt)

"""C12: trajectories of traced particles."""
RULE = ('a case is a simulation (Python, older Python or C++ mover; 1-3D or radial; charged and neutral species; 1-5 steps) in which a generated subset of particles is traced, a generated set of '
        'quantities is recorded every k-th step with 0-3 spare points, record calls are sometimes repeated or made at the start of a step, and new particles (one of them possibly traced) may be created between steps. The trajectories are '
        'compared datum by datum with a model that follows each particle by its ID. Non-trivial: some traced particle hit a boundary, or a particle stored before a traced one was absorbed, or a trajectory ran out of room.')
ASSUMPTIONS = ['paths within 1e-7 cell sizes of a vertex/edge are not judged', 'the cell-crossing count is judged in the data of regular steps only', 'in runs where an external field acts on the motion it is random: the data recorded at the walls must then be consistent with each other and with the fields']
CASES = {'quick': 6000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    extra = st.fixed_dictionaries(dict(extra=st.sampled_from([0, 0, 0, 1, 2, 3]), refl=st.sampled_from([False, False, True]), maxp=st.one_of(st.none(), st.integers(1, 6)), drop=st.integers(0, 255), dup=st.integers(0, 63),
                                       first=st.booleans(), ext=st.booleans(), pre=st.sampled_from([False, False, True]), nof=st.sampled_from([False] * 5 + [True]), new=st.lists(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 2), st.integers(1, 2), st.integers(0, 12)).map(list)), min_size=5, max_size=5),
                                       seed=st.integers(0, 10 ** 6)))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, traj=True, maxsteps=5, inner=False), extra, st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], tj=t[1], impl=t[2]))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), traj=True, maxsteps=5, inner=False), extra).map(lambda t: dict(t[0], tj=t[1], impl='cpp'))
    charged = [k for k in dtgen.PY_ALL if k[1] == 'charged']
    ext = st.tuples(dtgen.sim_strategy(charged, traj=True, maxsteps=3, inner=False), st.integers(0, 10 ** 6), st.sampled_from(['ext-py', 'ext-py-old'])).map(lambda t: dict(t[0], xseed=t[1], impl=t[2]))
    return st.integers(0, 13).flatmap(lambda i: py if i < 6 else cpp if i < 12 else ext)


def preload():
    import simlib
    simlib.preload()


def names_of(nm, drop, charged, fnm=None):
    fnm = fnm or nm                         # the components of the field
    opt = ['unique_ID', 'weight', 'crossings'] + ['u' + k for k in nm] + (['E' + k for k in fnm] + ['E%s_ext' % k for k in fnm] if charged else [])
    keep = [o for i, o in enumerate(opt) if not (drop >> (i % 8)) & 1 or o == 'unique_ID']
    names = ['step', 't'] + list(nm) + keep
    fm = [int if n in ('step', 'unique_ID', 'crossings') else 'f8' for n in names]
    return dict(names=names, formats=fm)


def run(case, ctx):
    import numpy as np
    from core import check, HarnessBug
    import simlib, dtlib
    from RecordedData_Module import TrajectoryInput_C
    from Particle_Module import Particle_C
    if case['impl'].startswith('ext'):
        return run_ext(case, ctx)
    tj = case['tj']
    if tj.get('refl'):                # every side reflects the test electrons: long trajectories
        sp = [dict(s) for s in case['species']]
        if all(s['name'] != 'test_electrons' for s in sp):
            sp[0]['name'] = 'test_electrons'
        case = dict(case, species=sp, bnd=['rmin'] * 6)
    if tj.get('nof'):                 # no solved field at all
        case = dict(case, field=None)
    ti = TrajectoryInput_C()
    nm, fnm = dtlib.case_coords(case)
    ti.max_points = tj['maxp']
    ti.extra_points = tj['extra']
    ti.charged_dict = names_of(nm, tj['drop'], True, fnm)
    ti.neutral_dict = names_of(nm, tj['drop'], False)
    S = simlib.Sim(case, case['impl'] == 'cpp', traj=ti)
    P, T = S.P, S.P.traj_T
    n = case['nsteps']
    skip = 1 if tj['maxp'] is None else int(n / tj['maxp'] + 1)
    room = int(n / skip + 1 + tj['extra'])
    check(T.skip == skip and T.npoints == room, 'interval %s and %s reserved points, expected %s and %s', T.skip, T.npoints, skip, room)
    X = None
    if tj.get('ext') and P.charged_species:
        from Dolfin_Module import Field_C
        X = Field_C(S.M, element_type='DG', element_degree=0, field_type='vector')
        xv = dtlib.fill(X, tj['seed'] + 1, 3.0)
        xd = [dtlib.cell_dofs(X, k) for k in range(S.dim)]
    model = {sn: {} for sn in P.species_names}            # uid -> list of data
    over = hit = shift = False

    def add(sn, uid, kind, **d):
        nonlocal over
        if len(model[sn][uid]) < room:
            model[sn][uid].append(dict(d, kind=kind))
        else:
            over = True

    def datum(sn, r, step, t, kind='step'):
        c = int(r['cell_index'])
        E = S.E_at(c, S.vec(r)) if kind == 'step' and S.charge[sn] != 0 else np.zeros(S.pdim)
        ext = np.zeros(S.pdim) if X is None or kind != 'step' or S.charge[sn] == 0 else dtlib.pad([xv[xd[k][c][0]] for k in range(S.dim)], S.pdim)
        return dict(ext=ext, step=step, t=t, x=S.vec(r), u=S.vec(r, 'u%s'), crossings=int(r['crossings']), weight=float(r['weight']), E=E)

    last = [None]

    def record(step, t):
        if step != last[0]:
            for sn in P.species_names:
                for r in S.state(sn):
                    if int(r['bitflags']) & simlib.TRAJ:
                        add(sn, int(r['unique_ID']), 'step', **datum(sn, r, step, t))
            last[0] = step
        P.record_trajectory_data(step, t, neg_E_field=S.F, external_E_field=X)

    for sn in P.species_names:
        for r in S.state(sn):
            if int(r['bitflags']) & simlib.TRAJ:
                model[sn][int(r['unique_ID'])] = []
    if tj['first']:
        record(0, S.ctrl.time)
    rs = np.random.RandomState(tj['seed'])
    np.random.seed(tj['seed'])
    for step in range(1, n + 1):
        before = {sn: S.state(sn) for sn in P.species_names}
        pred = {sn: [S.predict(sn, r) for r in before[sn]] for sn in before}
        S.begin()
        if tj.get('pre') and step % skip == 0:          # recorded at the start of the step
            record(step, S.ctrl.time)
        S.advance(old=case['impl'] == 'py-old')
        tnow = S.ctrl.time
        for sn in P.species_names:
            gone = False
            for r, p in zip(before[sn], pred[sn]):
                uid = int(r['unique_ID'])
                if int(r['bitflags']) & simlib.TRAJ:
                    shift = shift or gone
                    for h in p['hits']:
                        hit = True
                        add(sn, uid, 'crossing', step=step, t=tnow - S.dt + h['t'], x=h['x'], u=h['u'], weight=float(r['weight']), E=p['E'], crossings=None, tol=S.tol(r, p) * 10)
                    if not p['alive']:
                        # recorded before this advance with the same step number: the next step
                        late = last[0] == step
                        add(sn, uid, 'last', step=step + late, t=tnow + S.dt * late, x=p['x'], u=p['u'], weight=float(r['weight']), E=None, crossings=p['crossings'], tol=S.tol(r, p) * 10)
                gone = gone or not p['alive']
        if step % skip == 0:
            record(step, tnow)
        if (tj['dup'] >> step) & 1:
            P.record_trajectory_data(step, tnow, neg_E_field=S.F, external_E_field=X) if last[0] == step else None
        nw = tj['new'][step - 1] if step - 1 < len(tj['new']) else None
        if nw:
            sn = P.species_names[nw[0] % len(P.species_names)]
            from Dolfin_Module import WholeMesh_C, RectangularRegion_C
            lo, hi = S.g.X.min(0), S.g.X.max(0)
            reg = WholeMesh_C(S.M)
            old = set(int(v) for k in P.species_names for v in S.state(k)['unique_ID'])
            # the source traces the particle it gives ID 500
            Particle_C.UNIQUE_ID_COUNTER = max(Particle_C.UNIQUE_ID_COUNTER, 500 - nw[2])
            par = dict(species_name=sn, number_density=3.0, thermal_speed=0.3 * S.h / S.dt, drift_velocity=np.zeros(S.pdim), velocity_coordinate_system='x_y_z',
                       number_per_cell=nw[1], timestep_interval=1)
            P.create_maxwellian_particles(step, tnow, reg, par, S.F, X)
            for r in S.state(sn):
                if int(r['unique_ID']) not in old and int(r['bitflags']) & simlib.TRAJ:
                    model[sn][int(r['unique_ID'])] = []
                    add(sn, int(r['unique_ID']), 'step', **datum(sn, r, step, tnow))
                    ctx.label('new-traced')
        compare(S, T, model, step, room)
    compare(S, T, model, 'end', room)
    ctx.label(case['impl'], S.coord, *([k for k, v in (('hit', hit), ('full', over), ('shift', shift)) if v]))
    ctx.nontrivial(hit or over or shift)


def run_ext(case, ctx):
    """Moving in a random external field: the data recorded at the walls are consistent with each other and with the fields."""
    import numpy as np
    from core import check
    import simlib, dtlib
    from RecordedData_Module import TrajectoryInput_C
    from Dolfin_Module import Field_C
    nm, fnm = dtlib.case_coords(case)
    ti = TrajectoryInput_C()
    ti.max_points, ti.extra_points = None, 6
    ti.charged_dict, ti.neutral_dict = names_of(nm, 0, True, fnm), names_of(nm, 0, False)
    S = simlib.Sim(dict(case, bnd=['wall'] * 6), False, traj=ti)
    P, T = S.P, S.P.traj_T
    X = Field_C(S.M, element_type='DG', element_degree=0, field_type='vector')
    xv = dtlib.fill(X, case['xseed'] + 3, 0.5 * S.h / (S.dt ** 2 * max(abs(v) for v in S.qom.values())))
    xd = [dtlib.cell_dofs(X, k) for k in range(S.dim)]
    np.random.seed(case['xseed'])
    hits = 0
    for step in range(1, case['nsteps'] + 1):
        before = {sn: {int(r['unique_ID']): r for r in S.state(sn)} for sn in P.species_names}
        n0 = {sn: [int(v) for v in T.trajectory_length[sn]] for sn in P.species_names}
        S.begin()
        S.advance(old=case['impl'] == 'ext-py-old', external_E_field=X)
        tnow = S.ctrl.time
        for sn in P.species_names:
            left = set(int(r['unique_ID']) for r in S.state(sn))
            for k, uid in enumerate(int(v) for v in T.particle_unique_id_list[sn]):
                who = 'external field, step %d, %s particle %d' % (step, sn, uid)
                new = T.data_list[sn][k][n0[sn][k]:int(T.trajectory_length[sn][k])]
                want = 2 if uid in before[sn] and uid not in left else 0
                check(len(new) == want, '%s: %d data recorded, expected %d', who, len(new), want)
                if not want:
                    continue
                hits += 1
                r, d = before[sn][uid], new[0]
                c, x, u = int(r['cell_index']), S.vec(r), S.vec(r, 'u%s')
                E, Ex = (dtlib.pad([float(d[f % q]) for q in fnm], S.pdim) for f in ('E%s', 'E%s_ext'))
                xw, uw = (np.array([float(d[f % q]) for q in nm]) for f in ('%s', 'u%s'))
                Es = S.E_at(c, x)
                Xc = dtlib.pad([xv[xd[q][c][0]] for q in range(S.dim)], S.pdim)
                s = float(Ex @ Xc) / float(Xc @ Xc)
                sc = np.abs(E).max() + np.abs(Ex).max() + np.abs(Es).max()
                check(np.abs(E - Ex - Es).max() <= 1e-9 * sc, '%s: field %s and external field %s recorded at the wall, solved field is %s', who, E, Ex, Es)
                check(np.abs(Ex - s * Xc).max() <= 1e-9 * sc, '%s: external field %s recorded at the wall is not a multiple of %s', who, Ex, Xc)
                a = S.qom[sn] * S.dt * E
                check(np.abs(uw - u - a).max() <= 1e-9 * (np.abs(u).max() + np.abs(a).max()), '%s: velocity %s recorded at the wall, expected %s', who, uw, u + a)
                f = (float(d['t']) - (tnow - S.dt)) / S.dt
                eps = 1e-7 * (S.h + np.abs(uw).max() * S.dt + S.g.scale * 1e-3) + 1e-9 * abs(tnow / S.dt) * np.abs(uw).max() * S.dt
                check(-1e-6 <= f <= 1 + 1e-6 and np.abs(xw - x - f * S.dt * uw).max() <= eps, '%s: at %s at %r of the step, expected %s', who, xw, f, x + f * S.dt * uw)
                b = new[1]
                check(np.abs(np.array([b[q] for q in nm]) - x - S.dt * uw).max() <= eps, '%s: last position %s, expected %s', who, b, x + S.dt * uw)
                check(int(d['unique_ID']) == uid == int(b['unique_ID']), '%s: data of particles %s and %s', who, d['unique_ID'], b['unique_ID'])
    ctx.label(case['impl'], S.coord)
    ctx.nontrivial(hits > 0)


def compare(S, T, model, when, room):
    import numpy as np
    from core import check
    for sn in S.P.species_names:
        ids = [int(v) for v in T.particle_unique_id_list[sn]]
        check(sorted(ids) == sorted(model[sn]), 'step %s: trajectories of %s belong to particles %s, expected %s', when, sn, ids, sorted(model[sn]))
        for k, uid in enumerate(ids):
            want = model[sn][uid]
            got = T.data_list[sn][k]
            check(int(T.trajectory_length[sn][k]) == len(want), 'step %s: trajectory of %s particle %d has %d data, expected %d: %s', when, sn, uid, T.trajectory_length[sn][k], len(want), [(w['kind'], w['step']) for w in want])
            for j, w in enumerate(want):
                r = got[j]
                who = 'trajectory of %s particle %d, datum %d (%s, step %s)' % (sn, uid, j, w['kind'], w['step'])
                check(int(r['step']) == w['step'], '%s: recorded step %s', who, r['step'])
                check(abs(r['t'] - w['t']) <= 1e-9 * (S.dt * (1 + abs(w['step'])) + abs(w['t'])), '%s: recorded time %r, expected %r', who, r['t'], w['t'])
                tol = w.get('tol', 0.0)
                for i, c in enumerate(S.names):
                    check(abs(r[c] - w['x'][i]) <= tol + 1e-12 * S.g.scale, '%s: recorded %s=%r, expected %r', who, c, r[c], w['x'][i])
                    if 'u' + c in r.dtype.names:
                        check(abs(r['u' + c] - w['u'][i]) <= 1e-9 * np.linalg.norm(w['u']), '%s: recorded u%s=%r, expected %r', who, c, r['u' + c], w['u'][i])
                    if 'E' + c in r.dtype.names:
                        e = 0.0 if w['E'] is None else w['E'][i]
                        check(abs(r['E' + c] - e) <= 1e-9 * (S.Eamp if S.F is not None else 1.0), '%s: recorded E%s=%r, expected %r', who, c, r['E' + c], e)
                    if 'E%s_ext' % c in r.dtype.names:
                        e = float(w['ext'][i]) if 'ext' in w else 0.0
                        check(abs(r['E%s_ext' % c] - e) <= 1e-12, '%s: recorded external field %r, expected %r', who, r['E%s_ext' % c], e)
                check(int(r['unique_ID']) == uid, '%s: recorded data of particle %s', who, r['unique_ID'])
                if 'weight' in r.dtype.names:
                    check(r['weight'] == w['weight'], '%s: recorded weight %r, expected %r', who, r['weight'], w['weight'])
                if 'crossings' in r.dtype.names and w['crossings'] is not None:
                    check(int(r['crossings']) == w['crossings'], '%s: recorded %s crossings, expected %s', who, r['crossings'], w['crossings'])

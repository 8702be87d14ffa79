"""C13: snapshot and trajectory files hold what was in memory."""
RULE = ('a case is a simulation (Python or C++ store; every geometry; 1-3 species of 0-14 particles, segment length 1-7, 100 or 130, single or double precision in Python, 1-5 steps, traced particles, '
        'new particles from a source) with a drawn list of attributes, set of steps at which snapshots are written (sometimes twice at one step) and, at the end, the trajectory files. Some runs close the snapshot file with the last write and some go on with a second file. The files are read back '
        'with h5py and compared with copies taken from memory when they were written. Non-trivial: at least two snapshots with different populations, or a trajectory of two or more points.')
ASSUMPTIONS = ['a second write at the same step adds nothing (documented)', 'values are stored as 64-bit numbers']
CASES = {'quick': 2400, 'thorough': 20000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    opt = st.fixed_dictionaries(dict(seed=st.integers(0, 10 ** 6), nattr=st.integers(1, 12), write=st.integers(0, 63), dup=st.integers(0, 63), create=st.integers(0, 63), npc=st.sampled_from([1, 2, 3, 3, 40]),
                                     single=st.sampled_from([False, False, True]), close=st.booleans(), again=st.sampled_from([False, False, True]), tf=st.booleans(), extra=st.integers(0, 4)))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, traj=True, maxsteps=5), opt).map(lambda t: dict(t[0], io=t[1], impl='py'))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), traj=True, maxsteps=5), opt).map(lambda t: dict(t[0], io=dict(t[1], single=False), impl='cpp'))
    return st.one_of(py, cpp)


def preload():
    import simlib
    simlib.preload()
    import h5py


def released(fn):
    """nobody holds the file open for writing any more"""
    import fcntl
    from core import check
    with open(fn) as h:
        try:
            fcntl.flock(h, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError as e:
            check(False, 'the snapshot file is still held open after the write that was to close it: %s', e)


def run(case, ctx):
    import os, random
    import numpy as np
    import h5py
    from core import check
    import simlib, dtlib, runlib
    io = case['io']
    rng = random.Random(io['seed'])
    nm, fnm = dtlib.case_coords(case)
    title, author = 'run %d' % (io['seed'] % 97), 'author %d' % (io['seed'] % 13)
    if io['single']:
        case = dict(case, prec='single')
    S = simlib.Sim(case, case['impl'] == 'cpp', traj=runlib.traj_input(nm, io['extra'], fnm), ctrl_extra=dict(title=title, author=author))
    P, c = S.P, S.ctrl
    attrs = runlib.snapshot_attributes(nm)
    rng.shuffle(attrs)
    attrs = attrs[:io['nattr']]
    c.particle_output_file = 'particles.h5part'
    c.particle_output_attributes = attrs
    P.check_particle_output_parameters(c)
    P.initialize_particle_output_file(c)
    from Dolfin_Module import WholeMesh_C
    reg = WholeMesh_C(S.M)
    np.random.seed(io['seed'] % 2 ** 31)
    snaps = []

    def snap(twice):
        snaps.append((c.time, {sn: S.state(sn) for sn in P.species_names}))
        P.write_particles_to_file(c)
        for sn in P.species_names:
            check(S.state(sn).tobytes() == snaps[-1][1][sn].tobytes(), 'writing a snapshot changed the particles of %s', sn)
        if twice:
            P.write_particles_to_file(c)
    if io['write'] & 1:
        snap(io['dup'] & 1)
    P.record_trajectory_data(0, 0.0, neg_E_field=S.F)
    steps = case['nsteps']
    for k in range(1, steps + 1):
        S.begin()
        if not io['single']:
            S.advance()
        if io['create'] >> k & 1:
            sn = P.species_names[(io['seed'] + k) % len(P.species_names)]
            par = dict(species_name=sn, number_density=2.5, thermal_speed=0.4 * S.h / S.dt, drift_velocity=np.zeros(S.pdim), velocity_coordinate_system='x_y_z', number_per_cell=io['npc'], timestep_interval=1)
            P.create_maxwellian_particles(k, c.time, reg, par, S.F)
        P.record_trajectory_data(k, c.time, neg_E_field=S.F)
        if io['write'] >> k & 1:
            snap(io['dup'] >> k & 1)
    files = [('particles.h5part', snaps)]
    if io['close']:
        if not (io['write'] >> steps & 1):
            snaps.append((c.time, {sn: S.state(sn) for sn in P.species_names}))
        P.write_particles_to_file(c, close_flag=True)
        released('particles.h5part')
    else:
        P.particle_output_handle.close()
    if io.get('again'):                       # a second file, from the same step on
        c.particle_output_file = 'again.h5part'
        P.initialize_particle_output_file(c)
        snaps = []
        files.append(('again.h5part', snaps))
        snap(io['dup'] & 1)
        S.begin()
        snaps.append((c.time, {sn: S.state(sn) for sn in P.species_names}))
        P.write_particles_to_file(c, close_flag=True)
        released('again.h5part')

    # --- read the snapshots back
    sizes = set()
    for fn, snaps in files:
        with h5py.File(fn, 'r') as f:
            at = dict(f.attrs)
            check(at.get('Title:') == title and at.get('Author:') == author, 'snapshot file: title %r, author %r', at.get('Title:'), at.get('Author:'))
            check(int(at['NumParticleTypes:']) == len(P.species_names), 'snapshot file: %s species, expected %d', at['NumParticleTypes:'], len(P.species_names))
            index = {}
            for sn in P.species_names:
                ks = [k for k in at if k.startswith('particle_type_') and at[k] == sn]
                check(len(ks) == 1, 'snapshot file: species %s listed %d times', sn, len(ks))
                i = ks[0][len('particle_type_'):]
                index[sn] = int(i)
                check(at['mass_' + i] == S.mass[sn] and at['charge_' + i] == S.charge[sn], 'snapshot file: mass %r and charge %r of %s, expected %r, %r', at['mass_' + i], at['charge_' + i], sn, S.mass[sn], S.charge[sn])
            check(set(f) == set('Step#%d' % k for k in range(len(snaps))), 'snapshot file %s has %s for %d snapshots', fn, sorted(f), len(snaps))
            for k, (t, st) in enumerate(snaps):
                g = f['Step#%d' % k]
                check(g.attrs['TimeValue'] == t, 'snapshot %d: time %r, written at %r', k, g.attrs['TimeValue'], t)
                check(set(g) == set(attrs), 'snapshot %d: attributes %s, asked for %s', k, sorted(g), sorted(attrs))
                sizes.add(sum(len(v) for v in st.values()))
                for a in attrs:
                    want = [v for sn in P.species_names for v in ([index[sn]] * len(st[sn]) if a == 'species_index' else st[sn][a].tolist())]
                    got = np.array(g[a])
                    check(got.shape == (len(want),), 'snapshot %d: %s has shape %s, %d particles were stored', k, a, got.shape, len(want))
                    isf = a != 'species_index' and P.particle_dtype[a].kind == 'f'
                    check(got.dtype == (np.float64 if isf else np.int64), 'snapshot %d: %s stored as %s', k, a, got.dtype)
                    check(np.array_equal(got, np.array(want, dtype=got.dtype)), 'snapshot %d: %s is %s, in memory %s', k, a, got.tolist(), want)
    nt = len(sizes) > 1

    # --- trajectory files
    T = P.traj_T
    if io['tf']:
        T.write_trajectories_to_files()
        want = {}
        for sn in P.species_names:
            for i, uid in enumerate(T.particle_unique_id_list[sn]):
                want['traj-%s-uid%d.h5part' % (sn, uid)] = (sn, np.array(T.data_list[sn][i][:int(T.trajectory_length[sn][i])]))
        have = set(n for n in os.listdir('.') if n.startswith('traj-'))
        check(have == set(want), 'trajectory files %s, expected %s', sorted(have), sorted(want))
        for n, (sn, d) in want.items():
            with h5py.File(n, 'r') as f:
                at = dict(f.attrs)
                check(at.get('Title:') == title and at.get('Author:') == author, '%s: title %r, author %r', n, at.get('Title:'), at.get('Author:'))
                ks = [k for k in at if k.startswith('particle_type_')]
                check(len(ks) == 1 and at[ks[0]] == sn, '%s: species %s', n, [at[k] for k in ks])
                i = ks[0][len('particle_type_'):]
                check(int(i) == index[sn], '%s: species index %s, %d in the snapshot file', n, i, index[sn])
                check(at['mass_' + i] == S.mass[sn] and at['charge_' + i] == S.charge[sn], '%s: mass %r, charge %r', n, at['mass_' + i], at['charge_' + i])
                check(set(f) == set('Step#%d' % k for k in range(len(d))), '%s: %s for %d data', n, sorted(f), len(d))
                for k in range(len(d)):
                    g = f['Step#%d' % k]
                    check(g.attrs['TimeValue'] == d['t'][k], '%s, datum %d: time %r, recorded %r', n, k, g.attrs['TimeValue'], d['t'][k])
                    check(set(g) == set(d.dtype.names), '%s, datum %d: %s, recorded %s', n, k, sorted(g), d.dtype.names)
                    for a in d.dtype.names:
                        v = np.array(g[a]).ravel()
                        check(len(v) == 1 and v[0] == d[a][k], '%s, datum %d: %s is %s, recorded %r', n, k, a, v, d[a][k])
            nt = nt or len(d) > 1
    ctx.label(case['impl'], S.coord, 'single' if io['single'] else 'double', 'snapshots-%d' % len(snaps))
    ctx.nontrivial(nt)

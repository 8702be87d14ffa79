"""C16: initial particles."""
RULE = ('a case is a set of 1-4 species (name, charge, mass, dynamics), for each a list of 0-30 records in one of four coordinate systems (single or double precision in Python, double in C++; segment length '
        '1-9 or 100), given in a drawn order, optionally with traced particles and, for some species, an initial Maxwellian population over a region as well. After initialisation every stored record, '
        'the species data, counts and trajectories are compared with what was declared. Non-trivial: two species with particles, or more than one segment.')
ASSUMPTIONS = ['listed records are stored verbatim (the user gives start position, flags and IDs)']
CASES = {'quick': 5000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    f = st.floats(-1e6, 1e6, allow_nan=False, width=32)
    coords = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']

    def build(coord):
        d = {'cartesian_x': 1, 'spherical_r': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3}[coord]
        rec = st.tuples(st.lists(f, min_size=3 * d, max_size=3 * d), st.sampled_from([1.0, 0.5, 3e10, 0.0]), st.sampled_from([0, 0, 2, 4]), st.integers(-1, 50), st.integers(0, 9)).map(list)
        sp = st.fixed_dictionaries(dict(q=st.sampled_from([0.0, 1.0, -1.602e-19, 2.5, -3.0]), m=st.sampled_from([1.0, 9.109e-31, 7.0]), dyn=st.sampled_from(['charged', 'charged', 'neutral']),
                                        recs=st.integers(0, 30).flatmap(lambda n: st.lists(rec, min_size=n, max_size=n)), listed=st.sampled_from([True, True, True, False]),
                                        region=st.sampled_from([0, 0, 0, 1, 2])))
        return st.fixed_dictionaries(dict(coord=st.just(coord), L=st.sampled_from([1, 2, 3, 5, 9, 100]), impl=st.sampled_from(['py', 'py-single', 'cpp']),
                                          species=st.integers(1, 4).flatmap(lambda n: st.lists(sp, min_size=n, max_size=n)), order=st.integers(0, 100), traj=st.booleans(), bad=st.sampled_from([False] * 9 + [True]), seed=st.integers(0, 10 ** 6)))
    return st.sampled_from(coords).flatmap(build)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import random
    import numpy as np
    from core import check
    import dtlib, simlib, runlib
    from Particle_Module import Particle_C, ParticleInput_C, ParticleSpecies_C
    from RecordedData_Module import Trajectory_C
    from Dolfin_Module import WholeMesh_C
    from DT_Module import DTcontrol_C
    names = dtlib.COORDS[case['coord']]
    dim = len(names)
    cpp = case['impl'] == 'cpp'
    prec = np.float32 if case['impl'] == 'py-single' else np.float64
    pin = ParticleInput_C()
    pin.precision = prec
    pin.particle_integration_loop = 'loop-on-particles'
    pin.coordinate_system = case['coord']
    pin.force_components = list(names)
    pin.force_precision = np.float64
    pin.use_cpp_integrators = cpp
    allnames = ['beam', 'ions', 'dust', 'atoms']
    random.Random(case['order']).shuffle(allnames)
    sps = []
    for sn, s in zip(allnames, case['species']):
        sps.append(ParticleSpecies_C(sn, s['q'], s['m'], s['dyn']))
    pin.particle_species = tuple(sps)
    Particle_C.SEGMENT_LENGTH = case['L']
    Particle_C.UNIQUE_ID_COUNTER = 0
    P = Particle_C(pin)
    decl = dict(zip(allnames, case['species']))

    # what was declared
    check(list(P.species_names) == [s.name for s in sps], 'species %s, declared %s', P.species_names, [s.name for s in sps])
    for sn, s in decl.items():
        q = 0.0 if s['dyn'] == 'neutral' else s['q']
        check(P.charge[sn] == q and P.mass[sn] == s['m'], '%s: charge %r and mass %r, declared %s, %r, %r', sn, P.charge[sn], P.mass[sn], s['dyn'], s['q'], s['m'])
        check(P.qom[sn] == q / s['m'], '%s: charge/mass %r, expected %r', sn, P.qom[sn], q / s['m'])
        check(P.dynamics[sn] == s['dyn'], '%s: dynamics %r, declared %r', sn, P.dynamics[sn], s['dyn'])
        check((sn in P.neutral_species) == (q == 0.0) and (sn in P.charged_species) == (q != 0.0), '%s with charge %r: in charged %s, in neutral %s', sn, q, P.charged_species, P.neutral_species)
    check(sorted(P.species_index.values()) == list(range(1, len(sps) + 1)), 'species numbers %s', P.species_index)

    class UP(object):
        pass
    uid = 0
    lists = {}
    for sn, s in decl.items():
        lst = []
        if s['listed']:
            for r in s['recs']:
                lst.append(tuple([float(v) for v in r[0]] + [r[1], r[2], r[3], uid, r[4]]))
                uid += 1
        lists[sn] = lst
        setattr(UP, sn, staticmethod(lambda type, lst=lst: (len(lst), lst)))
    Particle_C.UNIQUE_ID_COUNTER = uid
    P.user_particles_class = UP
    ctrl = DTcontrol_C()
    ctrl.n_timesteps, ctrl.title, ctrl.author, ctrl.write_trajectory_files = 2, 'a', 'b', False
    if case['traj']:
        P.traj_T = Trajectory_C(runlib.traj_input(names), ctrl, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    entries = []
    import dolfin as df
    M = None
    for sn, s in decl.items():
        if s['listed']:
            entries.append(('list_' + sn, ({'species_name': sn, 'initial_distribution_type': 'listed'},)))
        if s['region']:
            if M is None:
                mesh, M = dtlib.make_mesh_M(dict(dim=dim, n=[2] * dim, lo=[0.5] * dim, hi=[1.5] * dim, jit=0.0, seed=1, grade=0.0, diag='right', radial=case['coord'] == 'spherical_r'))
                P.initialize_particle_mesh(M)
                P.initialize_particle_integration() if not cpp else None
                reg = WholeMesh_C(M)
            entries.append(('gas_' + sn, ({'species_name': sn, 'initial_distribution_type': 'function_over_region', 'number_density': 2.0, 'thermal_speed': 0.0, 'velocity_coordinate_system': 'x_y_z',
                                           'drift_velocity': np.array([1.5] * dim), 'number_per_cell': s['region']}, P.create_maxwellian_particles, reg)))
    random.Random(case['seed']).shuffle(entries)
    np.random.seed(case['seed'])
    P.initial_particles_dict = dict(entries)
    P.initialize_particles({sn: False for sn in P.species_names})

    total = 0
    nt = 0
    ids = set()
    multi = False
    for sn in P.species_names:
        st = simlib.Sim.state(type('X', (), dict(P=P, names=names))(), sn)
        k = 0
        for nme, e in entries:
            if e[0]['species_name'] != sn:
                continue
            if e[0]['initial_distribution_type'] == 'listed':
                for i, t in enumerate(lists[sn]):
                    check(k < len(st), '%s: %d particles stored, %s listed and more expected', sn, len(st), len(lists[sn]))
                    r = st[k]
                    for j, (f, v) in enumerate(zip(P.particle_dtype.names, t)):
                        w = prec(v) if j <= 3 * dim else v
                        check(r[f] == w, '%s, listed particle %d: %s stored as %r, listed %r', sn, i, f, r[f], v)
                    k += 1
            else:
                n = reg.ncell * e[0]['number_per_cell']
                check(k + n <= len(st), '%s: %d particles stored; %d expected from the initial distribution', sn, len(st), n)
                for r in st[k:k + n]:
                    check(0 <= int(r['cell_index']) < reg.ncell and all(0.5 - 1e-6 <= r[c] <= 1.5 + 1e-6 for c in names), '%s: initial particle %d at %s, cell %d', sn, r['unique_ID'], [r[c] for c in names], r['cell_index'])
                    check(all(r['u' + c] == 1.5 for c in names), '%s: initial particle %d has velocity %s', sn, r['unique_ID'], [r['u' + c] for c in names])
                k += n
        check(k == len(st), '%s: %d particles stored, %d given', sn, len(st), k)
        check(P.get_species_particle_count(sn) == k, '%s: count %s, given %d', sn, P.get_species_particle_count(sn), k)
        total += k
        nt += k > 0
        multi = multi or k > case['L']
        for v in st['unique_ID']:
            check(int(v) not in ids, 'ID %d given to two particles', v)
            ids.add(int(v))
        if case['traj']:
            T = P.traj_T
            got = [int(v) for v in T.particle_unique_id_list[sn]]
            want = [int(r['unique_ID']) for r in st if int(r['bitflags']) & 2]
            check(got == want, '%s: trajectories for %s, traced particles %s', sn, got, want)
            for i, u in zip(T.particle_index_list[sn], got):
                check(int(st[int(i)]['unique_ID']) == u, '%s: trajectory of particle %d follows storage index %d', sn, u, i)
    check(P.get_total_particle_count() == total, 'total count %s, given %d', P.get_total_particle_count(), total)
    if case['bad']:
        P.initial_particles_dict = {'x': ({'species_name': P.species_names[0], 'initial_distribution_type': 'nonsense'},)}
        try:
            P.initialize_particles({sn: False for sn in P.species_names})
        except RuntimeError:
            pass
        else:
            check(False, 'unknown initial_distribution_type accepted')
    ctx.label(case['impl'], case['coord'], 'region' if M is not None else 'lists', 'traj' if case['traj'] else 'no-traj')
    ctx.nontrivial(nt > 1 or multi)

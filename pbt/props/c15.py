"""C15: Maxwellian sources and regions."""
RULE = ('a case is a mesh (1-3D or radial) with 1-3 sources (whole mesh, box or 1-D interval region; density, thermal speed, drift, particles per cell, interval drawn), existing particles, and a '
        'history of 1-6 step numbers at which sources are asked to add particles, with mover steps in between in some cases (Python or C++ stores; also 3-D particles on a 1-D/2-D mesh). Each new record '
        'is compared with its source; velocities additionally by mean and variance bounds with error probability below 1e-10. Non-trivial: particles were added at two or more steps, or by two sources, '
        'and some region is a proper part of the mesh or some step added nothing.')
ASSUMPTIONS = ['region bounds within 1e-8 of a cell midpoint are not judged', 'SphericalRegion_C is one-dimensional (so documented)', 'radial weights are per steradian']
CASES = {'quick': 3200, 'thorough': 16000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    src = st.fixed_dictionaries(dict(sp=st.integers(0, 2), reg=st.sampled_from(['whole', 'box', 'box', 'ball']), a=st.lists(st.floats(0, 1, width=32), min_size=3, max_size=3),
                                     b=st.lists(st.floats(0, 1, width=32), min_size=3, max_size=3), dens=st.sampled_from([1.0, 1e12, 0.37]), vth=st.sampled_from([1.0, 1.0, 0.2, 0.0]),
                                     drift=st.lists(st.sampled_from([0.0, 1.0, -3.0, 0.5]), min_size=3, max_size=3), npc=st.sampled_from([1, 1, 2, 2, 3, 3, 7, 7, 20, 20, 90]), every=st.integers(1, 4),
                                     dkind=st.sampled_from(['tuple', 'array'])))
    ops = st.fixed_dictionaries(dict(srcs=st.integers(1, 3).flatmap(lambda n: st.lists(src, min_size=n, max_size=n)), steps=st.integers(1, 6).flatmap(lambda n: st.lists(st.integers(0, 9), min_size=n, max_size=n)),
                                     move=st.booleans(), seed=st.integers(0, 10 ** 6), ids=st.sampled_from([0, 0, 495, 400])))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL), ops).map(lambda t: dict(t[0], ops=t[1], impl='py'))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,)), ops).map(lambda t: dict(t[0], ops=t[1], impl='cpp'))
    plain = st.tuples(dtgen.mesh_strategy((1, 2)), ops, st.sampled_from(['plain-py', 'plain-cpp']), st.sampled_from([1, 2, 5, 100])).map(
        lambda t: dict(mesh=t[0], ops=t[1], impl=t[2], L=t[3]))
    return st.one_of(py, py, cpp, cpp, plain)


def preload():
    import simlib
    simlib.preload()


class Plain:
    """3-D particles on a mesh of lower dimension: stores only, no movers"""

    def __init__(self, case):
        import numpy as np
        import dtlib
        from Particle_Module import Particle_C, ParticleInput_C, ParticleSpecies_C
        self.mesh, self.M = dtlib.make_mesh_M(case['mesh'])
        self.g = dtlib.Geo(self.mesh)
        self.h, self.dt, self.radial, self.dim, self.F = float(np.median(self.g.hmin)), 1.0, False, self.g.dim, None
        self.names = ('x', 'y', 'z')
        self.coord = 'cartesian_xyz'
        Particle_C.UNIQUE_ID_COUNTER = 0
        Particle_C.SEGMENT_LENGTH = self.L = case['L']
        pin = ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = 'cartesian_xyz'
        pin.force_components = list(self.names)
        pin.force_precision = np.float64
        pin.use_cpp_integrators = case['impl'] == 'plain-cpp'
        pin.particle_species = (ParticleSpecies_C('ions', 1.0, 1.0, 'charged'), ParticleSpecies_C('atoms', 0.0, 2.0, 'neutral'))
        self.P = Particle_C(pin)
        self.P.initialize_particle_mesh(self.M)

        class Ctrl(object):
            timeloop_count, time = 0, 0.0
        self.ctrl = Ctrl()

    def state(self, sn):
        import simlib
        return simlib.Sim.state(self, sn)

    def vec(self, r, fmt='%s'):
        import numpy as np
        return np.array([r[fmt % k] for k in self.names])


def run(case, ctx):
    import numpy as np
    from core import check, Discard
    import simlib, dtlib
    from Particle_Module import Particle_C
    from Dolfin_Module import RectangularRegion_C, SphericalRegion_C, WholeMesh_C
    o = case['ops']
    plain = case['impl'].startswith('plain')
    S = Plain(case) if plain else simlib.Sim(case, case['impl'] == 'cpp')
    P, g = S.P, S.g
    pdim = len(S.names)
    lo, hi = g.X.min(0), g.X.max(0)
    mid = np.array([g.V[c].mean(0) for c in range(g.nc)])
    srcs = []
    proper = False
    for k, s in enumerate(o['srcs']):
        a = lo + np.minimum(s['a'], s['b'])[:g.dim] * (hi - lo)
        b = lo + np.maximum(s['a'], s['b'])[:g.dim] * (hi - lo)
        kind = s['reg'] if g.dim == 1 or s['reg'] != 'ball' else 'box'
        if kind == 'whole':
            want = set(range(g.nc))
            make = lambda: WholeMesh_C(S.M)
        else:
            if min(np.abs(mid - a).min(), np.abs(mid - b).min()) < max(1e-8 * g.h, 2e-10):
                raise Discard()
            want = set(c for c in range(g.nc) if np.all(mid[c] >= a) and np.all(mid[c] <= b))
            if kind == 'ball':
                make = lambda: SphericalRegion_C(S.M, float(a[0] + b[0]) / 2, float(b[0] - a[0]) / 2)
            elif g.dim == 1:
                make = lambda: RectangularRegion_C(S.M, float(a[0]), float(b[0]))
            else:
                make = lambda: RectangularRegion_C(S.M, tuple(float(v) for v in a), tuple(float(v) for v in b))
        if not want:
            try:
                make()
            except RuntimeError:
                ctx.label('empty-region')
                continue
            check(False, 'a %s region [%s, %s] without a cell was accepted', kind, a, b)
        reg = make()
        who = 'region %d (%s %s to %s)' % (k, kind, a, b)
        got = [int(v) for v in reg.cell_index]
        check(len(got) == reg.ncell and len(set(got)) == len(got), '%s: cells %s, ncell %s', who, got, reg.ncell)
        check(set(got) == want, '%s: has the cells %s, expected %s', who, sorted(got), sorted(want))
        check(sorted(c.index() for c in reg.cell_list) == sorted(want), '%s: cell list %s', who, sorted(c.index() for c in reg.cell_list))
        for i, c in enumerate(got):
            v = dtlib.cell_volume(g, c, S.radial)
            check(abs(reg.volume[i] - v) <= 1e-7 * v, '%s: volume of cell %d is %r, expected %r', who, c, reg.volume[i], v)
            check(np.abs(reg.midpoint[i][:g.dim] - mid[c]).max() <= 1e-9 * g.scale, '%s: midpoint of cell %d is %s, expected %s', who, c, reg.midpoint[i], mid[c])
        if kind != 'whole':
            for c in range(g.nc):
                check(bool(reg.inside(mid[c])) == (c in want), '%s: inside() of the midpoint of cell %d is %s', who, c, reg.inside(mid[c]))
        proper = proper or len(want) < g.nc
        vth = s['vth'] * S.h / S.dt * 0.3
        drift = [v * S.h / S.dt * 0.1 for v in s['drift'][:pdim]]
        par = dict(species_name=P.species_names[s['sp'] % len(P.species_names)], number_density=s['dens'], thermal_speed=vth, drift_velocity=tuple(drift) if s['dkind'] == 'tuple' else np.array(drift),
                   velocity_coordinate_system='x_y_z', number_per_cell=s['npc'], timestep_interval=s['every'])
        srcs.append((par, want, drift))
        if P.particle_source_dict is None:
            P.particle_source_dict = {}
        P.particle_source_dict['src%d' % k] = (par, P.create_maxwellian_particles, reg)
    if not srcs:
        raise Discard()
    Particle_C.UNIQUE_ID_COUNTER = max(Particle_C.UNIQUE_ID_COUNTER, o['ids'])
    used = set(int(v) for sn in P.species_names for v in S.state(sn)['unique_ID'])
    np.random.seed(o['seed'])
    samples = {k: [] for k in range(len(srcs))}
    spread = []
    sd = [np.sqrt(((g.V[c] - mid[c]) ** 2).sum(0) / ((g.dim + 1) * (g.dim + 2))) for c in range(g.nc)]   # of a uniform distribution over the cell
    added = idle = both = 0
    for t in o['steps']:
        if o['move'] and not plain:
            for sn in P.species_names:
                for r in S.state(sn):
                    S.predict(sn, r)
            S.begin()
            S.advance()
        S.ctrl.timeloop_count = t
        before = {sn: S.state(sn) for sn in P.species_names}
        P.add_more_particles(S.ctrl, S.F)
        new = {}
        for sn in P.species_names:
            st = S.state(sn)
            n = len(before[sn])
            check(len(st) >= n and st[:n].tobytes() == before[sn].tobytes(), 'step %d: adding particles changed the existing %s', t, sn)
            new[sn] = list(st[n:])
            check(P.get_species_particle_count(sn) == len(st), 'step %d: %s count %s, stored %d', t, sn, P.get_species_particle_count(sn), len(st))
        act = [k for k, (par, want, d) in enumerate(srcs) if t % par['timestep_interval'] == 0]
        added += bool(act)
        idle += not act
        both += len(act) > 1
        for sn in P.species_names:
            exp = sum(len(srcs[k][1]) * srcs[k][0]['number_per_cell'] for k in act if srcs[k][0]['species_name'] == sn)
            check(len(new[sn]) == exp, 'step %d: %d new %s, expected %d', t, len(new[sn]), sn, exp)
        pos = {sn: 0 for sn in P.species_names}
        for k in act:
            par, want, drift = srcs[k]
            sn = par['species_name']
            n = len(want) * par['number_per_cell']
            recs = new[sn][pos[sn]:pos[sn] + n]
            pos[sn] += n
            bycell = {}
            for r in recs:
                c = int(r['cell_index'])
                who = 'step %d, source %d (%s), new particle %d' % (t, k, sn, r['unique_ID'])
                check(c in want, '%s: in cell %d, the region is %s', who, c, sorted(want))
                x = S.vec(r)
                check(np.all(np.isfinite(x)) and g.bary(c, x[:g.dim]).min() > -1e-9, '%s: at %s, not in its cell %d', who, x, c)
                check(not np.any(x[g.dim:]), '%s: at %s on a %d-dimensional mesh', who, x, g.dim)
                check(np.array_equal(S.vec(r, '%s0'), x), '%s: start %s, position %s', who, S.vec(r, '%s0'), x)
                check(int(r['crossings']) == 0, '%s: %s crossings', who, r['crossings'])
                check(not int(r['bitflags']) & simlib.DELETE, '%s: created as deleted', who)
                check(int(r['bitflags']) in (0, simlib.TRAJ) and (int(r['bitflags']) == 0 or int(r['unique_ID']) == 500), '%s: flags %s', who, bin(int(r['bitflags'])))
                u = int(r['unique_ID'])
                check(u not in used, '%s: this ID has been used', who)
                used.add(u)
                v = S.vec(r, 'u%s') - np.array(drift)
                check(np.all(np.isfinite(v)), '%s: velocity %s', who, v)
                if par['thermal_speed'] == 0.0:
                    check(not np.any(np.abs(v) > 1e-12 * S.h / S.dt), '%s: velocity %s, drift %s, no thermal motion asked for', who, S.vec(r, 'u%s'), drift)
                else:
                    samples[k].append(v / par['thermal_speed'])
                if c in bycell:             # the first one is put at the centroid
                    spread.append((x[:g.dim] - mid[c]) / sd[c])
                bycell.setdefault(c, []).append(r)
            for c in want:
                l = bycell.get(c, [])
                check(len(l) == par['number_per_cell'], 'step %d, source %d: %d particles in cell %d, expected %d', t, k, len(l), c, par['number_per_cell'])
                w = [float(r['weight']) for r in l]
                tot = par['number_density'] * dtlib.cell_volume(g, c, S.radial) / (4 * np.pi if S.radial else 1.0)
                check(max(w) - min(w) <= 1e-12 * max(w) and min(w) > 0, 'step %d, source %d: weights %s in cell %d', t, k, w, c)
                check(abs(sum(w) - tot) <= 1e-7 * tot, 'step %d, source %d: weights in cell %d sum to %r, expected %r', t, k, c, sum(w), tot)
                if len(l) > 2:
                    check(len(set(tuple(S.vec(r)) for r in l)) == len(l), 'step %d, source %d: several of the %d new particles of cell %d are in one place', t, k, len(l), c)
    if len(spread) > 3:
        z = np.array(spread)
        n = len(z)
        for d in range(g.dim):
            check(abs(z[:, d].mean()) <= 6.0 / n ** 0.5 + 0.15, 'positions of %d new particles along axis %d are on average %r standard deviations from the middle of their cells', n, d, z[:, d].mean())
            check(abs((z[:, d] ** 2).mean() - 1.0) <= 9.0 / n ** 0.5 + 0.35, 'positions of %d new particles along axis %d have %r times the variance of positions spread over the cell', n, d, (z[:, d] ** 2).mean())
    for k, v in samples.items():
        if not v:
            continue
        v = np.array(v)
        n = len(v)
        check(np.abs(v).max() < 9.0, 'source %d: velocity %r thermal speeds from the drift', k, np.abs(v).max())
        for d in range(v.shape[1]):
            check(abs(v[:, d].mean()) <= 7.0 / n ** 0.5, 'source %d: mean of %d velocities is %r thermal speeds from the drift along axis %d', k, n, v[:, d].mean(), d)
            q, t = float((v[:, d] ** 2).sum()), 25.0
            check(n - 2 * (n * t) ** 0.5 <= q <= n + 2 * (n * t) ** 0.5 + 2 * t, 'source %d: variance of %d velocities along axis %d is %r of the thermal one', k, n, d, q / n)
        check(n < 2 or len(set(map(tuple, v))) == n, 'source %d: particles with the same velocity', k)
        check(v.shape[1] == 1 or not np.any(v[:, 0] == v[:, 1]), 'source %d: equal velocity components', k)
    ctx.label(case['impl'], S.coord, 'dim%d' % g.dim, *set(s['reg'] for s in o['srcs']))
    ctx.nontrivial((added > 1 or both) and (proper or idle))

"""C21: requests that cannot be carried out are refused with an error; the ones next to them are carried out."""
RULE = ('a case is one kind of request with a generated argument that is valid or invalid (independently): a coordinate system name (near misses of the valid ones), the choice of C++ or Python movers, a kind '
        'of initial distribution among several, a listed particle at a generated position and segment that lies outside the mesh, a missing mesh, a list of output attributes with an unknown one anywhere, a missing output file name, a mesh '
        'without or with an unknown coordinate system, a region that contains no cell, a missing trajectory-file switch, an unknown dynamics type, a source density of an unusable type, mesh tables that were not computed, a field evaluated '
        'outside the mesh, a 2D or 3D box mesh with field boundaries or source cells (not available there), a boundary without an action that a particle does or does not reach, and a step in which some particle crosses more or fewer facets than the limit (all movers). Refused: the call (run in a '
        'forked process) raises or exits with an error status. Carried out: it returns, and its result is checked. Non-trivial: the request is invalid and was refused.')
ASSUMPTIONS = ['which exception is raised and its text are not judged', 'a point counts as outside the mesh when it is at least 1e-3 of the mesh size away from it']
CASES = {'quick': 6000, 'thorough': 30000}
COORDS = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']
ATTRS = {1: ['x', 'x0', 'ux'], 2: ['x', 'y', 'x0', 'y0', 'ux', 'uy'], 3: ['x', 'y', 'z', 'x0', 'y0', 'z0', 'ux', 'uy', 'uz']}
POISSON = dict(kind='x', mesh=dict(dim=1, n=[4], lo=[0.0], hi=[1.0], radial=False), deg=1, E=None, marks=[1, 2], vals=[0.0, 1.0, 0.0, 1.0], unset=False, sel=0, shape='ends', other=False, reasm=False,
               lin=['lu', None], ops=[])
MORE = ['weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings', 'species_index']


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    D = lambda kind, **k: st.fixed_dictionaries(dict(k, kind=st.just(kind)))
    i = st.integers(0, 10 ** 6)
    name = st.one_of(st.sampled_from(COORDS + [None, '', 'cartesian', 'cartesian_y', 'cartesian_yx', 'cartesian_xyzz', 'Cartesian_x', 'spherical', 'spherical_rt', ' cartesian_x', 'cylindrical_rz', 'xy']),
                     st.text('cartesinphl_xyzr', min_size=0, max_size=14))
    kinds = [
        D('coord', name=name, cpp=st.booleans()),
        D('movers', use=st.sampled_from([None, True, False]), nsp=st.integers(1, 3)),
        D('initial', types=st.lists(st.sampled_from(['listed', 'listed', 'listed', 'function_over_region', 'functional', 'list', 'Listed', None, '']), min_size=1, max_size=4), seed=i),
        D('listed', mesh=dtgen.mesh_strategy(), L=st.integers(1, 7), n=st.integers(1, 25), bad=st.lists(st.integers(0, 60), max_size=2), cpp=st.booleans(), out=st.sampled_from([1e-3, 0.01, 1.0, 50.0]), seed=i, nsp=st.integers(1, 2)),
        D('nomesh', what=st.sampled_from(['particle', 'charge']), have=st.booleans(), cpp=st.booleans()),
        D('attrs', dim=st.integers(1, 3), attrs=st.lists(st.one_of(st.integers(0, 14), st.sampled_from(['vx', 'Weight', 'id', '', 'z', 'species', 'x1'])), max_size=8)),
        D('outfile', have=st.booleans()),
        D('mesh', coord=st.one_of(st.sampled_from(['Cartesian', 'Cartesian', '1D-spherical-radial', None, 'cartesian', 'cartesian_xy', 'spherical_r', 'polar', '', '1D-spherical', 'Cartesian ', '2D-spherical-radial']), st.text('Cartesin1D-phl', max_size=12)), dim=st.integers(1, 3)),
        D('region', mesh=dtgen.mesh_strategy(), shape=st.sampled_from(['box', 'sphere']), c=st.lists(st.floats(-0.5, 1.5), min_size=3, max_size=3), r=st.sampled_from([0.0, 0.01, 0.1, 0.4, 0.9])),
        D('trajfiles', flag=st.sampled_from([None, True, False])),
        D('dynamics', dyn=st.sampled_from(['charged', 'neutral', 'implicit', '', None, 'Charged', 'charge'])),
        D('source', v=st.sampled_from(['none', 'str', 'float', 'int', 'np', 'list', 'tuple', 'dict', 'complex', 'bytes', 'object', 'fn']), x=st.floats(-3, 3)),
        D('tables', have=st.booleans(), which=st.sampled_from(['neighbors', 'normals']), dim=st.integers(1, 3)),
        D('field', mesh=dtgen.mesh_strategy(), el=st.integers(0, 1), n=st.integers(1, 12), bad=st.lists(st.integers(0, 20), max_size=2), out=st.sampled_from([1e-3, 0.1, 5.0]), random=st.booleans(), seed=i, tag=st.booleans()),
    ]
    kinds.append(D('marks', dim=st.integers(2, 3), n=st.integers(1, 3), field=st.booleans(), source=st.booleans(), particle=st.booleans()))
    lim = st.one_of(st.integers(-2, 2).map(lambda k: ['rel', k]), st.integers(0, 12).map(lambda k: ['abs', k]))
    py = dtgen.sim_strategy(dtgen.PY_KINDS, maxsteps=2, maxparts=8, inner=False).map(lambda s: dict(s, impl='py'))
    old = dtgen.sim_strategy(dtgen.PY_KINDS, maxsteps=2, maxparts=8, inner=False).map(lambda s: dict(s, impl='py-old'))
    cpp = dtgen.sim_strategy(dtgen.CPP_KINDS, els=(0,), maxsteps=2, maxparts=8, inner=False).map(lambda s: dict(s, impl='cpp'))
    crossing = st.tuples(st.one_of(py, old, cpp), lim).map(lambda t: dict(t[0], limit=t[1], kind='limit'))
    wall = lambda s, i: dict(s, bnd=['wall'] * 6) if i & 8 else s        # so that facets inside the mesh are boundaries too
    inn = dtgen.sim_strategy(dtgen.PY_KINDS, maxsteps=2, maxparts=8).map(lambda s: dict(s, inner=s['inner'] or [1, 4]))
    both = st.tuples(inn, st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], impl=t[1]))
    noact = st.tuples(both, st.integers(0, 15)).map(lambda t: dict(wall(t[0], t[1]), without=t[1], kind='noaction'))
    return st.one_of(st.one_of(*kinds), crossing, crossing, noact)


def preload():
    import simlib
    simlib.preload()
    import mesh_entity_arrays_solib, os, shutil, tempfile
    from props import c11
    here, d = os.getcwd(), tempfile.mkdtemp()
    os.chdir(d)
    try:
        S = c11.World(POISSON).S[0]
        S.assemble_source_expression(1.0)
        S.assemble_source_expression('1.5 + 0.0*x[0]')
    except BaseException:
        pass                                   # reported by the cases themselves
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def attempt(f):
    """f() in a forked process: (refused, its JSON result or the reason)"""
    import json, os, sys
    from core import HarnessBug
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                v = f()
                os.write(w, json.dumps(v).encode())
                code = 0
            except BaseException as e:
                os.write(w, ('%s: %s' % (type(e).__name__, e)).encode()[:2000])
                code = 0 if isinstance(e, SystemExit) and e.code in (None, 0) else 77
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    if code == 0:
        try:
            return False, json.loads(buf)
        except ValueError:
            return True, 'exit status 0 without an answer: ' + buf.decode()
    return True, 'exit %d: %s' % (code, buf.decode(errors='replace'))


def pinput(coord='cartesian_xy', cpp=False, species=('ions',), force=None):
    import numpy as np
    from Particle_Module import ParticleInput_C, ParticleSpecies_C
    pin = ParticleInput_C()
    pin.precision = np.float64
    pin.particle_integration_loop = 'loop-on-particles'
    pin.coordinate_system = coord
    pin.force_components = force
    pin.force_precision = np.float64
    pin.use_cpp_integrators = cpp
    pin.particle_species = tuple(ParticleSpecies_C(s, 1.0, 1.0, 'charged') for s in species)
    return pin


def control():
    from DT_Module import DTcontrol_C
    ctrl = DTcontrol_C()
    ctrl.dt, ctrl.n_timesteps, ctrl.timeloop_count, ctrl.time = 0.1, 4, 0, 0.0
    ctrl.title = ctrl.author = 'case'
    ctrl.write_trajectory_files = False
    return ctrl


def unit(dim, n=2):
    import dolfin as df
    return df.UnitIntervalMesh(n) if dim == 1 else df.UnitSquareMesh(n, n) if dim == 2 else df.UnitCubeMesh(n, n, n)


def judge(ctx, valid, f, what, result=None):
    from core import check
    refused, ans = attempt(f)
    if valid:
        check(not refused, '%s was refused: %s', what, ans)
        if result is not None:
            check(ans == (list(result) if isinstance(result, tuple) else result), '%s gave %s, expected %s', what, ans, result)
    else:
        check(refused, '%s was accepted and gave %s', what, ans)
        ctx.nontrivial(True)
    ctx.label('valid' if valid else 'refused')
    return ans


def outside_point(g, rng, far):
    """a point clearly outside the bounding box of the mesh"""
    import numpy as np
    lo, hi = g.X.min(0), g.X.max(0)
    x = lo + (hi - lo) * rng.random(g.dim)
    d = rng.integers(g.dim)
    side = rng.integers(2)
    x[d] = hi[d] + far * g.h if side else lo[d] - far * g.h
    return x


def run(case, ctx):
    import numpy as np
    from core import check, Discard
    import dtlib, simlib
    from Particle_Module import Particle_C, ParticleMeshBoundaryConditions_C
    from Dolfin_Module import Mesh_C, Field_C, PoissonSolve_C, RectangularRegion_C, SphericalRegion_C
    from RecordedData_Module import Trajectory_C, TrajectoryInput_C
    k = case['kind']
    ctx.label(k)

    if k == 'coord':
        nm = case['name']
        judge(ctx, nm in COORDS, lambda: [list(Particle_C(pinput(nm, case['cpp'])).position_coordinates)], 'the particle coordinate system %r' % (nm,),
              [list(dtlib.COORDS[nm])] if nm in COORDS else None)

    elif k == 'movers':
        judge(ctx, case['use'] is not None, lambda: list(Particle_C(pinput(cpp=case['use'], species=['s%d' % i for i in range(case['nsp'])])).species_names), 'use_cpp_integrators = %r' % case['use'],
              ['s%d' % i for i in range(case['nsp'])])

    elif k == 'initial':
        ok = ('listed', 'function_over_region')
        sps = ['s%d' % i for i in range(len(case['types']))]

        def f():
            P = Particle_C(pinput(species=sps))
            made = []

            class UP(object):
                pass
            for s in sps:
                setattr(UP, s, staticmethod(lambda type: (1, [(0.0,) * 6 + (1.0, 0, 0, 7, 0)])))
            P.user_particles_class = UP
            fn = lambda step, time, region, params, *a: made.append(params['species_name'])
            P.initial_particles_dict = {'i' + s: (dict(species_name=s, initial_distribution_type=t), fn, None) for s, t in zip(sps, case['types'])}
            P.initialize_particles({s: False for s in sps})
            return [made, [int(P.get_species_particle_count(s)) for s in sps]]
        good = all(t in ok for t in case['types'])
        judge(ctx, good, f, 'initial distributions %r' % (case['types'],), [[s for s, t in zip(sps, case['types']) if t != 'listed'], [1 if t == 'listed' else 0 for t in case['types']]])

    elif k == 'listed':
        mesh, M = dtlib.make_mesh_M(case['mesh'])
        g = dtlib.Geo(mesh)
        rng = np.random.default_rng(case['seed'])
        coord = 'spherical_r' if case['mesh'].get('radial') else dtlib.CARTESIAN[g.dim]
        n = case['n']
        sps = ['s%d' % i for i in range(case['nsp'])]
        bad = sorted(set(b % n for b in case['bad']))
        bsp = case['seed'] % len(sps)
        recs, cells = {}, {}
        for si, s in enumerate(sps):
            recs[s], cells[s] = [], []
            for j in range(n):
                c = int(rng.integers(g.nc))
                x = g.point_in(c, 0.1 + rng.random(g.dim + 1))
                if j in bad and si == bsp:
                    x = outside_point(g, rng, case['out'])
                recs[s].append(tuple(float(v) for v in x) * 2 + (0.0,) * g.dim + (1.0, 0, -1, j, 0))
                cells[s].append(c)

        def f():
            Particle_C.SEGMENT_LENGTH = case['L']
            P = Particle_C(pinput(coord, case['cpp'], sps, dtlib.COORDS[coord]))

            class UP(object):
                pass
            for s in sps:
                setattr(UP, s, staticmethod(lambda type, s=s: (n, recs[s])))
            P.user_particles_class = UP
            P.initial_particles_dict = {'i' + s: (dict(species_name=s, initial_distribution_type='listed'),) for s in sps}
            P.initialize_particle_mesh(M)
            P.initialize_particles({s: False for s in sps})
            P.compute_mesh_cell_indices()
            out = {}
            for s in sps:
                out[s] = []
                sap = P.sap_dict[s]
                m, seg = sap.init_out_loop()
                while isinstance(seg, np.ndarray):
                    out[s] += [int(v) for v in seg['cell_index'][:m]]
                    m, seg = sap.get_next_segment('out')
            return out
        judge(ctx, not bad, f, 'particles listed outside the mesh: %s of %d (%s)' % (bad, n, sps[bsp]), cells)

    elif k == 'nomesh':
        def f():
            P = Particle_C(pinput(cpp=case['cpp']))
            M = dtlib.make_mesh_M(dict(dim=2, n=[1, 1], jit=0.0, seed=0, grade=0.0, lo=[0.0, 0.0], hi=[1.0, 1.0]))[1] if case['have'] else None
            if case['what'] == 'particle':
                P.initialize_particle_mesh(M)
                return P.pmesh_M is M
            P.pmesh_M = M
            d = {s: Field_C(M, element_type='CG', element_degree=1, field_type='scalar') if M is not None else None for s in P.species_names}
            tot = Field_C(M, element_type='CG', element_degree=1, field_type='scalar') if M is not None else None
            P.accumulate_charge_density_from_particles(d, tot)
            return True
        judge(ctx, case['have'], f, 'a %s computation %s a mesh' % (case['what'], 'with' if case['have'] else 'without'), True)

    elif k == 'attrs':
        known = ATTRS[case['dim']] + MORE
        attrs = [a if isinstance(a, str) else known[a % len(known)] for a in case['attrs']]

        def f():
            ctrl = control()
            ctrl.particle_output_attributes = tuple(attrs)
            Particle_C(pinput(dtlib.CARTESIAN[case['dim']])).check_particle_output_parameters(ctrl)
            return True
        judge(ctx, all(a in known for a in attrs), f, 'the output attributes %s of %dD particles' % (attrs, case['dim']), True)

    elif k == 'outfile':
        import os
        fn = os.path.join(os.getcwd(), 'c21_out.h5part')

        def f():
            ctrl = control()
            ctrl.particle_output_file = fn if case['have'] else None
            ctrl.particle_output_attributes = ('x',)
            P = Particle_C(pinput())
            P.initialize_particle_output_file(ctrl)
            return os.path.exists(fn)
        judge(ctx, case['have'], f, 'an output file named %r' % (fn if case['have'] else None), True)
        if os.path.exists(fn):
            os.remove(fn)

    elif k == 'mesh':
        c = case['coord']
        good = c in ('Cartesian', '1D-spherical-radial')
        if c == '1D-spherical-radial' and case['dim'] > 1:
            raise Discard()                     # not a mesh of that kind: not judged

        def f():
            M = Mesh_C(Mesh=unit(case['dim']), coordinate_system=c, compute_dictionaries=True, compute_tree=True)
            return len(M.cell_volume_dict)
        judge(ctx, good, f, 'a %dD mesh with coordinate system %r' % (case['dim'], c), {1: 2, 2: 8, 3: 48}[case['dim']])

    elif k == 'region':
        mesh, M = dtlib.make_mesh_M(case['mesh'])
        g = dtlib.Geo(mesh)
        lo, hi = g.X.min(0), g.X.max(0)
        c = lo + (hi - lo) * np.array(case['c'][:g.dim])
        mid = g.V.mean(1)
        a, b = c - case['r'] * (hi - lo), c + case['r'] * (hi - lo)
        d = np.maximum(a - mid, mid - b).max(1)
        if np.any(np.abs(d) < 1e-8 * g.scale + 2e-10):
            raise Discard()
        want = [int(i) for i in np.nonzero(d < 0)[0]]

        def f():
            if g.dim > 1:
                R = RectangularRegion_C(M, tuple(float(v) for v in a), tuple(float(v) for v in b))
            elif case['shape'] == 'box':
                R = RectangularRegion_C(M, float(a[0]), float(b[0]))
            else:
                R = SphericalRegion_C(M, float(c[0]), float(b[0] - c[0]))
            return sorted(int(i) for i in R.cell_index)
        judge(ctx, bool(want), f, 'a %s region that contains %d cells' % (case['shape'], len(want)), want)

    elif k == 'trajfiles':
        def f():
            ctrl = control()
            ctrl.write_trajectory_files = case['flag']
            ti = TrajectoryInput_C()
            ti.max_points, ti.extra_points = None, 1
            T = Trajectory_C(ti, ctrl, ['a'], ['b'], {'a': 1, 'b': 2}, {'a': 1.0, 'b': 1.0}, {'a': 1.0, 'b': 0.0})
            return T.npoints
        judge(ctx, case['flag'] is not None, f, 'write_trajectory_files = %r' % (case['flag'],), 6)

    elif k == 'dynamics':
        def f():
            ti = TrajectoryInput_C()
            ti.max_points, ti.extra_points = None, 1
            ti.charged_dict = {'names': ['step', 'x', 'ux'], 'formats': [int, float, float]}
            ti.neutral_dict = {'names': ['step', 'x'], 'formats': [int, float]}
            T = Trajectory_C(ti, control(), ['a'], [], {'a': 1}, {'a': 1.0}, {'a': 1.0})
            T.create_trajectory('a', 3, case['dyn'], unique_id_int=9)
            return [list(T.data_list['a'][0].dtype.names), T.particle_index_list['a'], T.particle_unique_id_list['a'], T.trajectory_length['a']]
        judge(ctx, case['dyn'] in ('charged', 'neutral'), f, 'a trajectory for a particle with dynamics %r' % (case['dyn'],), [['step', 'x', 'ux'] if case['dyn'] == 'charged' else ['step', 'x'], [3], [9], [0]])

    elif k == 'source':
        x = case['x']
        v = dict(none=None, str='1.5 + 0.0*x[0]', float=x, int=int(x), np=np.float64(x), list=[x], tuple=(x,), dict={'x': x}, complex=complex(x, 1.0), bytes=b'1.0', object=object(), fn=lambda p: x)[case['v']]
        good = case['v'] in ('none', 'str', 'float', 'int', 'np')
        val = dict(none=0.0, str=1.5, float=x, int=float(int(x)), np=x).get(case['v'])

        def f():
            from props import c11
            S = c11.World(POISSON).S[0]
            S.assemble_source_expression(v)
            pos = np.array(S.V.tabulate_dof_coordinates()).ravel()
            return [float(q) for q, p in zip(S.b[:], pos) if 0.01 < p < 0.99]
        ans = judge(ctx, good, f, 'a source density of type %s' % type(v).__name__)
        if good:
            check(len(ans) == 3 and max(abs(q - 0.25 * val) for q in ans) <= 1e-12 * (1 + abs(val)), 'source density %r assembled to %s on cells of length 0.25', v, ans)

    elif k == 'tables':
        def f():
            import mesh_entity_arrays_solib as mea
            A = getattr(mea, 'MeshEntityArrays_%d_facets' % (case['dim'] + 1))(unit(case['dim'], 1), compute_particle_mesh_maps=case['have'])
            r = A.get_cell_neighbors(0) if case['which'] == 'neighbors' else A.get_cell_facet_normals(0)
            return True
        judge(ctx, case['have'], f, 'reading the cell %s, %s computed' % (case['which'], '' if case['have'] else 'not'), True)

    elif k == 'field':
        mesh, M = dtlib.make_mesh_M(case['mesh'])
        g = dtlib.Geo(mesh)
        rng = np.random.default_rng(case['seed'])
        F = Field_C(M, element_type=['DG', 'CG'][case['el']], element_degree=case['el'], field_type='vector')
        dtlib.fill(F, case['seed'], 1.0)
        n = case['n']
        bad = sorted(set(b % n for b in case['bad']))
        seg = np.zeros(n, dtlib.record_dtype('xyz'[:g.dim]))
        for j in range(n):
            c = int(rng.integers(g.nc))
            x = outside_point(g, rng, case['out']) if j in bad else g.point_in(c, 0.1 + rng.random(g.dim + 1))
            for d in range(g.dim):
                seg[j][d] = x[d]
            seg[j]['cell_index'] = c if case['tag'] or j not in bad else -1

        def f():
            out = np.zeros(n, np.dtype([(q, float) for q in 'xyz'[:g.dim]]))
            (F.interpolate_random_field_to_points if case['random'] else F.interpolate_field_to_points)(seg, out)
            return True
        judge(ctx, not bad, f, 'a field evaluated at %d points, outside the mesh: %s' % (n, bad), True)

    elif k == 'marks':
        import dolfin as df
        import UserMesh_y_Fields_FE_XYZ_Module as U
        d = case['dim']
        names = ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax'][:2 * d]

        def f():
            mi = U.UserMeshInput_C()
            mi.pmin, mi.pmax = df.Point(*[0.0] * d), df.Point(*[1.0] * d)
            mi.cells_on_side = (case['n'],) * d
            D = {q: j + 1 for j, q in enumerate(names)}
            mi.field_boundary_dict = D if case['field'] else None
            mi.particle_boundary_dict = D if case['particle'] else None
            mi.particle_source_dict = {1: 'sourceX1', 2: 'sourceX2'} if case['source'] else None
            M = U.UserMesh_C(mi)
            return [M.mesh.num_cells(), M.particle_boundary_marker is not None]
        judge(ctx, not case['field'] and not case['source'], f, 'a %dD box mesh with field boundaries: %s, source cells: %s' % (d, case['field'], case['source']), [case['n'] ** d * {2: 2, 3: 6}[d], case['particle']])

    elif k in ('limit', 'noaction'):
        sim(case, ctx)


def sim(case, ctx):
    """a step that must be refused because of one of its particles, and the steps before it that must not"""
    import numpy as np
    from core import check, Discard
    import simlib
    from Particle_Module import ParticleMeshBoundaryConditions_C
    impl = case['impl']
    missing = set()

    def bcs(S):
        f = simlib.py_bcs(S.coord, S.P, S.log)

        class Fns(object):
            pass
        o = Fns()
        names = sorted(S.P.species_names)
        w = case['without']
        for b in S.bdict:
            for j, sn in enumerate(names):
                if (w >> j) & 1:
                    missing.add((b, sn))
                else:
                    setattr(o, 'bc_at_%s_for_%s' % (b, sn), f.default_bc)
        return o
    if case['kind'] == 'noaction':
        S = simlib.Sim(case, False, user_bcs=bcs, actions=lambda b, sn: 'absorb')
    else:
        S = simlib.Sim(case, impl == 'cpp')
    for step in range(case['nsteps']):
        before = {sn: S.state(sn) for sn in S.P.species_names}
        pred = {sn: [S.predict(sn, r) for r in before[sn]] for sn in before}
        need = max([p['crossings'] for v in pred.values() for p in v] + [0])
        S.begin()
        if case['kind'] == 'limit':
            how, kk = case['limit']
            lim = max(0, need + kk) if how == 'rel' else kk
            S.ctrl.MAX_FACET_CROSS_COUNT = lim
            valid = need <= lim
            what = '%s: a step in which a particle crosses %d facets, with a limit of %d,' % (impl, need, lim)
        else:
            hit = sorted(set((h['name'], sn) for sn in pred for p in pred[sn] for h in p['hits'] if (h['name'], sn) in missing))
            valid = not hit
            what = '%s: a step in which particles reach boundaries without an action %s' % (impl, hit)

        def f():
            S.advance(old=impl == 'py-old')
            out = {}
            for sn in before:
                out[sn] = sorted([int(r['unique_ID']), int(r['cell_index'])] for r in S.state(sn))
            return out
        want = {sn: sorted([int(r['unique_ID']), int(p['cell'])] for r, p in zip(before[sn], pred[sn]) if p['alive']) for sn in before}
        ctx.label(impl, S.coord)
        judge(ctx, valid, f, what, want)
        if not valid:
            return
        S.advance(old=impl == 'py-old')

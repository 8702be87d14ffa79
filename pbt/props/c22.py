"""C22: plots show exactly what was recorded or computed."""
RULE = ('a case is one plotting request: the histories of a particle object with 1-3 species (synthetic quantities with generated values, recorded 1-8 times), the trajectories of generated species (0-4 per species, 0-6 data '
        'each in storage with room for more, with or without unique IDs) against time and in phase space or on a mesh, a mesh made or copied with plotting on, or a solved potential in 1D and 2D. The figures that are displayed '
        '(intercepted at matplotlib.pyplot.show) are compared with the recorded values: one curve per quantity or per trajectory and component, with all the recorded points in order and no others, labelled with the quantity and identified by its title; the data '
        'themselves are not changed, and plotting does not change the solution. Non-trivial: at least two curves with data were displayed, or a mesh/potential of at least two cells.')
ASSUMPTIONS = ['titles are judged only for naming the species and the particle', 'colours, markers, axes limits and the order of the figures are not judged']
CASES = {'quick': 2400, 'thorough': 12000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    val = st.one_of(st.integers(-3, 3).map(float), st.floats(-1e6, 1e6))
    i = st.integers(0, 10 ** 6)
    sp = st.lists(st.sampled_from(['ions', 'e', 'He+', 'trajelectrons', 'n2']), min_size=1, max_size=3, unique=True)
    hist = st.fixed_dictionaries(dict(kind=st.just('hist'), sp=sp.map(lambda s: s[:2]), q=st.lists(st.sampled_from(['count', 'energy', 'number']), max_size=2, unique=True), n=st.integers(0, 7), maxp=st.one_of(st.none(), st.integers(1, 8)),
                                      dt=st.sampled_from([0.1, 1e-9, 3.0]), seed=i))
    comps = st.lists(st.sampled_from(['x', 'y', 'z', 'ux', 'uy', 'Ex', 'x_ext', 'weight']), min_size=1, max_size=5, unique=True)
    tr = st.lists(st.tuples(st.integers(0, 6), st.one_of(st.none(), st.one_of(st.integers(0, 2), st.integers(0, 99), st.integers(200, 10 ** 6)))), min_size=0, max_size=3)
    traj = st.fixed_dictionaries(dict(kind=st.sampled_from(['traj', 'traj', 'onmesh']), sp=sp, cc=comps, nc=comps, tr=st.lists(tr, min_size=3, max_size=3), tonly=st.booleans(), charged=st.integers(0, 7), seed=i, dim=st.integers(1, 2)))
    mesh = st.fixed_dictionaries(dict(kind=st.just('mesh'), how=st.sampled_from(['Mesh', 'copy', 'file', 'xyz', 'sph', 'circ', 'sph-file', 'circ-file']), dim=st.integers(1, 3), n=st.lists(st.integers(1, 4), min_size=3, max_size=3), titled=st.booleans(), flag=st.sampled_from([True, True, True, False]), seed=i))
    phi = st.fixed_dictionaries(dict(kind=st.just('phi'), dim=st.integers(1, 2), n=st.integers(2, 6), v=st.tuples(val, val).map(list), src=val, flag=st.sampled_from([True, True, True, False]), E=st.booleans()))
    return st.one_of(hist, traj, traj, mesh, phi)


def preload():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import simlib
    simlib.preload()
    plt.close(plt.figure())


class Shown:
    """what is on the figures at the moment they are displayed"""

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt, self.figs, self.old = plt, [], plt.show
        plt.close('all')

        def show(*a, **k):                      # as the user sees it: closing the windows ends the call
            for n in plt.get_fignums():
                f = plt.figure(n)
                if f.axes:
                    self.figs.append(f)
                plt.close(f)
        plt.show = show
        return self

    def __exit__(self, *a):
        self.plt.show = self.old
        self.plt.close('all')

    def curves(self):
        out = []
        for f in self.figs:
            for ax in f.axes:
                for l in ax.lines:
                    out.append(dict(title=ax.get_title(), x=ax.get_xlabel(), y=ax.get_ylabel(), pts=[tuple(float(v) for v in p) for p in zip(l.get_xdata(), l.get_ydata())]))
        return out


def named(word, title):
    """a name, or a number that is not part of a longer one"""
    import re
    return word in (re.findall(r'\d+', title) if word.isdigit() else title)


def match(got, want, what):
    """a one-to-one match of the curves with the expected (x label, y label, words in the title, points)"""
    from core import check
    ok = lambda w, g: g['pts'] == w['pts'] and g['y'] == w['y'] and (w['x'] is None or g['x'] == w['x']) and all(named(q, g['title']) for q in w['words']) and not any(named(q, g['title']) for q in w.get('no', ()))
    cand = [[j for j, g in enumerate(got) if ok(w, g)] for w in want]
    owner = {}

    def place(i, seen):                         # augmenting paths: names can be parts of other names
        for j in cand[i]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    for i, w in enumerate(want):
        check(place(i, set()), '%s: no displayed curve of %s with the points %s, the others are %s', what, (w['x'], w['y'], w['words']), w['pts'], [g for j, g in enumerate(got) if j not in owner][:6])
    left = [g for j, g in enumerate(got) if j not in owner]
    check(not left, '%s: unexpected curves %s', what, left[:4])


def run(case, ctx):
    import numpy as np
    from core import check, Discard
    import dtlib
    k = case['kind']
    ctx.label(k)
    rng = np.random.default_rng(case.get('seed', 0))
    if k == 'hist':
        from RecordedData_Module import ParticleHistory_C, ParticleHistoryInput_C
        from props import c21
        from Particle_Module import Particle_C
        P = Particle_C(c21.pinput(species=case['sp']))
        ctrl = c21.control()
        ctrl.n_timesteps, ctrl.dt = case['n'], case['dt']
        hi = ParticleHistoryInput_C()
        hi.max_points, hi.scalar_histories = case['maxp'], list(case['q'])
        now = {}
        P.history_function_dict = {'species_' + q: (lambda s, sp, q=q: now[sp, q]) for q in case['q']}
        P.get_species_number = lambda sp, *a, **kw: now[sp, 'N']
        H = P.histories = ParticleHistory_C(hi, ctrl, P.history_function_dict, P.species_names)
        series = {}
        for step in range(0, case['n'] + 1, H.skip):
            for sp in case['sp']:
                now[sp, 'N'] = float(rng.integers(0, 5))
                for q in case['q']:
                    now[sp, q] = float(np.round(rng.normal() * 100))
            t = np.float32(step * case['dt'])
            P.record_history_data(step, float(t))
            series.setdefault('timestep', []).append((float(t), float(step)))
            for q in case['q']:
                series.setdefault(q, []).append((float(t), float(np.float32(sum(now[sp, q] for sp in case['sp'])))))
                for sp in case['sp']:
                    series.setdefault(sp + '_' + q, []).append((float(t), float(np.float32(now[sp, q]))))
                    series.setdefault(sp + '_ppp_' + q, []).append((float(t), float(np.float32(now[sp, q] / max(now[sp, 'N'], 1)))))
        before = H.data_array.copy()
        with Shown() as s:
            H.plot()
        check((H.data_array == before).all(), 'plotting changed the histories')
        match(s.curves(), [dict(x=None, y=q, words=[q] if q != 'timestep' else [], pts=p) for q, p in series.items()], 'histories of %s' % case['sp'])
        ctx.label('rows-%d' % len(series['timestep']))
        ctx.nontrivial(len(series) > 1)

    elif k in ('traj', 'onmesh'):
        import dolfin as df
        from RecordedData_Module import Trajectory_C, TrajectoryInput_C
        from props import c21
        sps = case['sp']
        ch = [s for j, s in enumerate(sps) if (case['charged'] >> j) & 1]
        ne = [s for s in sps if s not in ch]
        ctrl = c21.control()
        ctrl.n_timesteps = 6
        ti = TrajectoryInput_C()
        ti.max_points, ti.extra_points = None, 2
        mk = lambda cc: {'names': ['step', 't'] + list(cc), 'formats': [int, float] + [float] * len(cc)}
        ti.charged_dict, ti.neutral_dict = mk(case['cc']), mk(case['nc'])
        one = {s: 1.0 for s in sps}
        T = Trajectory_C(ti, ctrl, ch, ne, {s: j for j, s in enumerate(sps)}, one, one)
        want = []
        for sp, tr in zip(sps, case['tr']):
            for it, (n, uid) in enumerate(tr):
                T.create_trajectory(sp, 100 + it, 'charged' if sp in ch else 'neutral', unique_id_int=uid)
                D = T.data_list[sp][it]
                for nm in D.dtype.names:
                    D[nm] = rng.permutation(len(D)) + 10 * it + (0.25 if nm not in ('step',) else 0)
                T.trajectory_length[sp][it] = n
                cc = D.dtype.names[2:]
                words = [sp, str(100 + it if uid is None else uid)]
                no = [] if uid is None else [str(100 + it)]
                pts = lambda a, b: [(float(p), float(q)) for p, q in zip(D[a][:n], D[b][:n])]
                if k == 'traj':
                    want += [dict(x=None, y=c, words=words, no=no, pts=pts('t', c)) for c in cc]
                    if not case['tonly'] and 'x' in cc:
                        want += [dict(x='x', y=c, words=words, no=no, pts=pts('x', c)) for c in ('y', 'ux') if c in cc]
                elif 'x' in cc and 'y' in cc and n != 1:
                    want.append(dict(x=None, y='', words=[], pts=pts('x', 'y')))
        before = {sp: [np.copy(d) for d in T.data_list[sp]] for sp in sps}
        what = 'trajectories of %s (%s)' % (sps, k)
        if k == 'traj':
            with Shown() as s:
                T.plot(**(dict(plot_vs_t_only=True) if case['tonly'] else {}))
            match(s.curves(), want, what)
        else:
            mesh = c21.unit(case['dim'])
            with Shown() as s0:
                df.plot(mesh, title='paths')
                s0.plt.show()
            with Shown() as s:
                T.plot_trajectories_on_mesh(mesh, 'paths')
            base, got = s0.curves(), s.curves()
            for b in base:
                same = [g for g in got if g['title'] == b['title'] and repr(g['pts']) == repr(b['pts'])]
                check(same, '%s: the mesh is not on the plot', what)
                got.remove(same[0])
            n0 = [p for w in want for p in [w] if w['pts']]
            match([g for g in got if g['pts']], n0, what)
        check(all((a == b).all() for sp in sps for a, b in zip(before[sp], T.data_list[sp])), '%s: plotting changed the data', what)
        ctx.label('curves-%d' % min(len(want), 12), 'phase' if k == 'traj' and not case['tonly'] else 't-only')
        ctx.nontrivial(sum(1 for w in want if w['pts']) > 1)

    elif k == 'mesh':
        import dolfin as df
        d = case['dim']
        title = 'my mesh' if case['titled'] else None
        n = case['n'][:d]
        how = case['how']
        if how[:3] == 'sph':
            d, n = 1, n[:1]
        elif how[:4] == 'circ':
            d, n = 2, case['n'][:2]
        path = 'plotted_mesh.xml'
        ref = lambda: df.UnitIntervalMesh(*n) if d == 1 else df.UnitSquareMesh(*n) if d == 2 else df.UnitCubeMesh(*n)
        if how.endswith('file'):
            m0 = ref()
            m0.coordinates()[:] *= 1.0 + case['seed'] % 7
            df.File(path) << m0
        if how == 'xyz':
            import UserMesh_y_Fields_FE_XYZ_Module as U
            mi = U.UserMeshInput_C()
            mi.pmin, mi.pmax = df.Point(*[0.0] * d), df.Point(*[1.0] * d)
            mi.cells_on_side = tuple(n)
            mk = lambda: U.UserMesh_C(mi, plot_flag=case['flag'], plot_title=title)
        elif how[:3] in ('sph', 'cir'):
            if d == 1:
                import UserMesh_y_Fields_Spherical1D_Module as U
                mi, build = U.UserMeshInput1DS_C(), U.UserMesh1DS_C
            else:
                import UserMesh_y_Fields_FE2D_Module as U
                mi, build = U.UserMeshInput2DCirc_C(), U.UserMesh2DCirc_C
                mi.tmax, mi.nt, mi.diagonal = 1.0, n[1], 'left'
            if how.endswith('file'):
                mi.mesh_file = path
            else:
                mi.rmin, mi.rmax, mi.nr, mi.stretch = 0.5, 2.0, n[0], 1.3
            mk = lambda: build(mi, plot_flag=case['flag'], plot_title=title)
        else:
            from Dolfin_Module import Mesh_C
            arg = dict(mesh_file=path) if how == 'file' else {'Mesh' if how == 'Mesh' else 'mesh_to_copy': ref()}
            mk = lambda: Mesh_C(coordinate_system='Cartesian', plot_flag=case['flag'], plot_title=title or 'x', **arg)
        with Shown() as s:
            M = mk()
        what = '%dD mesh %s (%s)' % (d, n, how)
        check(M.mesh.topology().dim() == d and (how[:3] in ('sph', 'cir', 'xyz') or M.mesh.num_vertices() == ref().num_vertices()), '%s: not the mesh that was asked for', what)
        check(len(s.figs) == (1 if case['flag'] else 0), '%s: %d figures displayed, plotting was %s', what, len(s.figs), case['flag'])
        if case['flag']:
            ax = s.figs[0].axes[0]
            if title:
                check(ax.get_title() == title or how == 'sph' and title in ax.get_title(), '%s: plot title %r, expected %r', what, ax.get_title(), title)
            if d < 3:
                got = set(tuple(np.round([v for v in p], 9)) for l in ax.lines for p in l.get_xydata() if not np.isnan(p).any())
                X = M.mesh.coordinates()
                check(got == set(tuple(np.round(list(p) + [0.0] * (2 - d), 9)) for p in X), '%s: points on the plot are %s', what, sorted(got))
        ctx.nontrivial(case['flag'] and M.mesh.num_cells() > 1)

    else:
        phi(case, ctx)


def phi(case, ctx):
    import numpy as np
    from core import check
    from props import c11, c21
    d, n = case['dim'], case['n']
    mesh = dict(dim=1, n=[n], lo=[0.0], hi=[1.0], radial=False) if d == 1 else dict(c21.POISSON['mesh'], dim=2, n=[n, n], lo=[0.0] * 2, hi=[1.0] * 2, jit=0.0, seed=0, grade=0.0)
    W = c11.World(dict(c21.POISSON, mesh=mesh, vals=case['v'] * 2, E=['DG', 0] if case['E'] else None, kind='x'))
    S = W.S[0]
    S.assemble_source_expression(case['src'] * 1e-11)
    S.solve_for_phi()
    u0 = np.array(S.u.vector()[:])
    S.u.vector()[:] = 0.0
    with Shown() as s:
        S.solve_for_phi(plot_flag=case['flag'], plot_title='a run')
    u1 = np.array(S.u.vector()[:])
    what = 'potential on %d cells' % W.g.nc
    check(np.abs(u1 - u0).max() <= 1e-9 * (1 + np.abs(u0).max()), '%s: plotting changed the solution from %s to %s', what, u0, u1)
    check(len(s.figs) == ((1 + case['E']) if case['flag'] else 0), '%s: %d figures displayed, plotting was %s (field: %s)', what, len(s.figs), case['flag'], case['E'])
    if case['flag']:
        t = [f.axes[0].get_title() for f in s.figs]
        check(all('a run' in x for x in t), '%s: titles %s', what, t)
        if d == 1:
            c = [p for p in s.curves() if 'phi' in p['title']]
            x = W.phi[0].function_space.tabulate_dof_coordinates().ravel()
            want = sorted(zip(x, u1))
            check(len(c) == 1 and len(c[0]['pts']) == len(want) and np.allclose(sorted(c[0]['pts']), want, rtol=1e-9, atol=1e-9 * (1 + np.abs(u1).max())), '%s: displayed %s, expected %s', what, c, want)
    ctx.nontrivial(case['flag'])

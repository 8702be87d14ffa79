"""C20: user mesh builders."""
RULE = ('a case is an input of one of the mesh builders (1-D radial, 2-D circle segment, 1/2/3-D box) with generated extents, resolution, stretch, diagonal and boundary dictionaries (integer marks are '
        'arbitrary distinct non-zero numbers; each dictionary may be absent), built once or twice, and for the radial and circle builders optionally written to XML and read back through the builder. Oracle: '
        'vertices from the stated formula, connectivity of the plain structured mesh of the same resolution, facet marks from the vertices of each facet. Non-trivial: more than one cell and at least one '
        'boundary dictionary given.')
ASSUMPTIONS = ['extents between 1e-3 and 2e3 (boundaries are recognised with an absolute tolerance of 1e-10)', 'circle segments have rmin > 0 and span at most 180 degrees per angular cell', 'UserMesh_C supports field boundaries in 1-D only']
CASES = {'quick': 9000, 'thorough': 30000}
DIAG = ['left', 'right', 'left/right', 'right/left', 'crossed']


def strategy(tier):
    from hypothesis import strategies as st
    ext = st.one_of(st.sampled_from([1.0, 0.01, 25.0]), st.floats(1e-3, 1e3, allow_nan=False))
    pos = st.one_of(st.sampled_from([0.0, 1.0, -3.0]), st.floats(-1e3, 1e3, allow_nan=False).map(lambda v: v if abs(v) > 1e-6 else 0.0))
    rad = st.one_of(st.sampled_from([0.0, 1.0, 0.25]), st.floats(1e-3, 1e3, allow_nan=False))
    marks = st.one_of(st.permutations([1, 2, 3, 4, 5, 6]), st.lists(st.integers(1, 10 ** 6), min_size=6, max_size=6, unique=True))
    stretch = st.one_of(st.sampled_from([1.0, 1.3, 2.0]), st.floats(0.4, 4.0, allow_nan=False))
    common = dict(fm=marks, pm=marks, fd=st.booleans(), pd=st.sampled_from([True, True, False]), twice=st.booleans(), files=st.booleans(), order=st.booleans(), dicts=st.booleans())
    sph = st.fixed_dictionaries(dict(common, kind=st.just('sph'), rmin=rad, w=ext, nr=st.integers(1, 40), stretch=stretch))
    circ = st.fixed_dictionaries(dict(common, kind=st.just('circ'), rmin=rad.map(lambda v: v or 0.5), w=ext, nr=st.integers(1, 8), stretch=stretch, nt=st.integers(1, 8), tmax=st.floats(0.05, 6.2, allow_nan=False), diag=st.sampled_from(DIAG))).map(lambda c: dict(c, tmax=min(c['tmax'], 3.1 * c['nt'])))

    def box(d):
        n = st.lists(st.integers(1, {1: 40, 2: 8, 3: 4}[d]), min_size=d, max_size=d)
        return st.fixed_dictionaries(dict(common, kind=st.just('box'), lo=st.lists(pos, min_size=d, max_size=d), w=st.lists(ext, min_size=d, max_size=d), n=n, diag=st.one_of(st.none(), st.sampled_from(DIAG))))
    return st.one_of(sph, circ, st.integers(1, 3).flatmap(box))


def run(case, ctx):
    import numpy as np, dolfin as df
    from core import check, Discard
    import dtlib
    kind = case['kind']
    if kind == 'box':
        import UserMesh_y_Fields_FE_XYZ_Module as U
        d = len(case['n'])
        lo, hi = np.array(case['lo']), np.array(case['lo']) + np.array(case['w'])
        if np.any(hi <= lo):
            raise Discard()
        mi = U.UserMeshInput_C()
        mi.pmin, mi.pmax = df.Point(*lo), df.Point(*hi)
        mi.cells_on_side = tuple(case['n'])
        if d == 2:
            mi.diagonal = case['diag']
        build = U.UserMesh_C
        names = ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax'][:2 * d]
        fnames = names if d == 1 else []
        ref = df.UnitIntervalMesh(case['n'][0]) if d == 1 else df.UnitSquareMesh(*case['n'], case['diag'] or 'right') if d == 2 else df.UnitCubeMesh(*case['n'])
        F = lambda u: lo + u * (hi - lo)
        geo = 'Cartesian'
    else:
        d = 1 if kind == 'sph' else 2
        rmin, rmax, s = case['rmin'], case['rmin'] + case['w'], case['stretch']
        if not rmax - rmin > 1e-4 * rmax:
            raise Discard()
        R = lambda u: rmin + (rmax - rmin) * u ** s
        if kind == 'sph':
            import UserMesh_y_Fields_Spherical1D_Module as U
            mi, build = U.UserMeshInput1DS_C(), U.UserMesh1DS_C
            names = fnames = ['rmin', 'rmax']
            ref = df.UnitIntervalMesh(case['nr'])
            F = R
            geo = '1D-spherical-radial'
        else:
            import UserMesh_y_Fields_FE2D_Module as U
            mi, build = U.UserMeshInput2DCirc_C(), U.UserMesh2DCirc_C
            mi.tmax, mi.nt, mi.diagonal = case['tmax'], case['nt'], case['diag']
            names, fnames = ['rmin', 'rmax', 'thmin', 'thmax'], ['rmin', 'rmax']
            ref = df.UnitSquareMesh(case['nr'], case['nt'], case['diag'])
            F = lambda u: np.stack([R(u[:, 0]) * np.cos(case['tmax'] * u[:, 1]), R(u[:, 0]) * np.sin(case['tmax'] * u[:, 1])], 1)
            geo = 'Cartesian'
        mi.rmin, mi.rmax, mi.nr, mi.stretch = rmin, rmax, case['nr'], s

    def mkdict(ns, ms):
        e = list(zip(ns, ms))
        return dict(e if case['order'] else e[::-1])
    fd = mkdict(fnames, case['fm']) if case['fd'] and fnames else None
    pd = mkdict(names, case['pm']) if case['pd'] else None
    mi.field_boundary_dict, mi.particle_boundary_dict = dict(fd) if fd else None, dict(pd) if pd else None
    # ---- expected mesh
    uref = np.array(ref.coordinates())
    X = F(uref).reshape(-1, d)
    scale = np.abs(X).max()
    h = min(np.linalg.norm(X[a] - X[b]) for c in ref.cells() for i, a in enumerate(c) for b in c[:i])
    if h < 1e-7 * scale:
        raise Discard()
    cells = set(frozenset(int(v) for v in c) for c in ref.cells())
    fv = dtlib.facet_vertex_sets(ref)
    count = {}
    for c in cells:
        for v in c:
            count[c - {v}] = count.get(c - {v}, 0) + 1
    sides = {'xmin': (0, 0.0), 'xmax': (0, 1.0), 'ymin': (1, 0.0), 'ymax': (1, 1.0), 'zmin': (2, 0.0), 'zmax': (2, 1.0), 'rmin': (0, 0.0), 'rmax': (0, 1.0), 'thmin': (1, 0.0), 'thmax': (1, 1.0)}

    def expected(dct):
        m = {}
        for f, n in count.items():
            m[f] = 0
            if n == 1:
                for nm, v in (dct or {}).items():
                    a, e = sides[nm]
                    if all(abs(uref[q][a] - e) < 1e-9 for q in f):
                        m[f] = v
        return m

    def judge(mesh, what):
        Y = np.array(mesh.coordinates()).reshape(-1, d)
        check(len(Y) == len(X), '%s: %d vertices, expected %d', what, len(Y), len(X))
        vol = sum(abs(np.linalg.det(Y[c[1:]] - Y[c[0]])) for c in mesh.cells())
        # match vertices through a sorted grid of rounded coordinates
        idx = np.array([int(np.argmin(((X - y) ** 2).sum(1))) for y in Y])
        err = np.abs(X[idx] - Y).max()
        check(err <= 1e-10 * scale, '%s: a vertex is %r away from where it should be', what, err)
        check(len(set(idx)) == len(X), '%s: two vertices coincide', what)
        got = [frozenset(int(idx[v]) for v in c) for c in mesh.cells()]
        check(len(got) == len(cells) and set(got) == cells, '%s: the cells are not those of the requested mesh (%d cells, expected %d)', what, len(got), len(cells))
        return idx

    def marks(mesh, idx, mk, dct, what):
        check(mk.dim() == d - 1, '%s marks entities of dimension %d', what, mk.dim())
        want = expected(dct)
        vs = dtlib.facet_vertex_sets(mesh)
        check(len(vs) == len(want) and mk.size() == len(want), '%s has %d values for %d facets', what, mk.size(), len(want))
        for f, s in vs.items():
            k = frozenset(int(idx[v]) for v in s)
            check(mk[f] == want[k], '%s: facet with vertices %s is marked %d, expected %d (%s)', what, [list(X[v]) for v in k], mk[f], want[k], dct)

    def judge_all(M, what, needf=True, needp=True):
        idx = judge(M.mesh, what)
        check(M.gdim == d and M.tdim == d and M.coordinate_system == geo, '%s: dimensions %s, %s, coordinate system %s', what, M.gdim, M.tdim, M.coordinate_system)
        if needf:
            check((M.field_boundary_dict or None) == fd, '%s: field boundary dictionary %s, given %s', what, M.field_boundary_dict, fd)
            if fd is None:
                check(getattr(M, 'field_boundary_marker', None) is None, '%s: field marker without a dictionary', what)
            else:
                marks(M.mesh, idx, M.field_boundary_marker, fd, what + ', field marker')
        if needp:
            check((M.particle_boundary_dict or None) == pd, '%s: particle boundary dictionary %s, given %s', what, M.particle_boundary_dict, pd)
            mk = getattr(M, 'particle_boundary_marker', None)
            if pd is not None:
                marks(M.mesh, idx, mk, pd, what + ', particle marker')
            elif mk is not None:
                check(not np.any(mk.array()), '%s: particle marks without a dictionary', what)
        return idx

    kw = dict(compute_dictionaries=True, compute_tree=True) if case['dicts'] else {}
    M = build(mi, **kw)
    judge_all(M, 'mesh')
    check(mi.field_boundary_dict == fd and mi.particle_boundary_dict == pd, "the user's dictionaries were changed")
    if case['dicts']:
        check(len(M.cell_volume_dict) == len(cells), '%d cell volumes', len(M.cell_volume_dict))
        tot = sum(M.cell_volume_dict[c] for c in range(len(cells)))
        if kind == 'box':
            check(abs(tot / np.prod(hi - lo) - 1) < 1e-9 + 1e-14 * (scale / h) ** d, 'the cells fill a volume of %r, the box has %r', tot, np.prod(hi - lo))
        elif kind == 'sph':
            check(abs(tot / (4 * np.pi / 3 * (rmax ** 3 - rmin ** 3)) - 1) < 1e-9 + 1e-13 * scale / h, 'the cells fill a volume of %r', tot)
    if case['twice']:
        before = np.array(M.mesh.coordinates())
        M2 = build(mi, **kw)
        judge_all(M2, 'second mesh')
        M2.mesh.coordinates()[:] += 1.0
        check(np.array_equal(before, M.mesh.coordinates()), 'two meshes built from one input share coordinates')
        judge_all(M, 'first mesh after building a second')
        ctx.label('twice')
    if case['files'] and kind != 'box':
        df.File('mesh.xml') << M.mesh
        m2 = type(mi)()
        m2.mesh_file = 'mesh.xml'
        if fd:
            df.File('f.xml') << M.field_boundary_marker
            m2.field_boundary_file, m2.field_boundary_dict = 'f.xml', dict(fd)
        if pd:
            df.File('p.xml') << M.particle_boundary_marker
            m2.particle_boundary_file, m2.particle_boundary_dict = 'p.xml', dict(pd)
        M3 = build(m2, **kw)
        judge_all(M3, 'mesh from file', needf=fd is not None, needp=pd is not None)
        if fd:
            from Dolfin_Module import Mesh_C
            M4 = Mesh_C(mesh_file='mesh.xml', coordinate_system=geo, field_boundary_marker_file='f.xml')
            marks(M4.mesh, judge(M4.mesh, 'Mesh_C from file'), M4.field_boundary_marker, fd, 'Mesh_C from file')
        ctx.label('files')
    ctx.label(kind + str(d))
    ctx.nontrivial(len(cells) > 1 and bool(fd or pd))

"""C09: field values at particles against shape functions written out by hand."""
RULE = ('a case is a mesh (1-3D), a field with random values (constant-per-cell or piecewise-linear; scalar or vector), up to 40 points '
        'inside random cells (or on a wall facet of one, inside or outside by round-off), and an output array longer than the points. The Python interpolator is compared with the values computed '
        'from barycentric coordinates; the C++ one (constant-per-cell vector fields) with the cell values; entries past the requested '
        'number must keep their sentinel. Non-trivial: points in at least 2 different cells and sentinel entries present.')
ASSUMPTIONS = ['the C++ interpolator is specified (in its documentation) for constant-per-cell fields only',
               'points (but those on the walls) keep a distance of 1e-3 barycentric units from facets for constant-per-cell fields (the value is two-valued there)']
CASES = {'quick': 8000, 'thorough': 40000}
ELEMENTS = [('DG', 0, 'vector'), ('CG', 1, 'vector'), ('DG', 0, 'scalar'), ('CG', 1, 'scalar')]


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    pt = st.tuples(st.integers(0, 300), st.lists(st.floats(0.02, 1.0), min_size=4, max_size=4))
    return st.fixed_dictionaries(dict(
        mesh=dtgen.mesh_strategy(), el=st.integers(0, 3), pts=st.lists(pt, min_size=0, max_size=40), seed=st.integers(0, 10 ** 6),
        scale=st.sampled_from([1.0, 1e-6, 1e6]), extra=st.sampled_from([2, 0, 1, 5]), rounds=st.integers(1, 2), slicelen=st.integers(0, 40), more=st.sampled_from([0, 0, 0, 1, 2]), wall=st.lists(st.tuples(st.integers(0, 300), st.integers(-2, 2)), max_size=40)))


def preload():
    import numpy_types_solib
    import dolfin_functions_solib
    import dolfin as df
    for m in (df.UnitIntervalMesh(1), df.UnitSquareMesh(1, 1), df.UnitCubeMesh(1, 1, 1)):
        for e, d, t in ELEMENTS:
            (df.FunctionSpace if t == 'scalar' else df.VectorFunctionSpace)(m, e, d)


def expected(g, vals, F, el, cells, pts):
    import numpy as np
    import dtlib
    e, d, t = el
    ncomp = 1 if t == 'scalar' else g.dim
    out = np.zeros((len(pts), ncomp))
    for k in range(ncomp):
        comp = None if t == 'scalar' else k
        if e == 'DG':
            cd = dtlib.cell_dofs(F, comp)
            for i, c in enumerate(cells):
                out[i, k] = vals[cd[c][0]]
        else:
            vd = dtlib.vertex_dofs(F, g, comp)
            for i, c in enumerate(cells):
                out[i, k] = g.bary(c, pts[i]) @ vals[vd[c]]
    return out


def run(case, ctx):
    import numpy as np
    from core import check
    import dtlib
    import dolfin_functions_solib as dfs
    from Dolfin_Module import Field_C
    el = ELEMENTS[case['el']]
    mesh, M = dtlib.make_mesh_M(case['mesh'])
    g = dtlib.Geo(mesh)
    dim = g.dim
    # "is" comparison with a literal in Field_C: pass the literals
    F = Field_C(M, element_type=el[0], element_degree=el[1], field_type='scalar' if el[2] == 'scalar' else 'vector')
    cells = [c % g.nc for c, w in case['pts']]
    pts = [g.point_in(c, w) for c, (_, w) in zip(cells, case['pts'])]
    # some of the points are moved to a wall facet of their cell, to within a few units of round-off
    nwall = 0
    bfacets = [(c, i) for c in range(g.nc) for i in range(dim + 1) if len(g.facet_cells[g.facet_key(c, i)]) == 1]
    for i, (w, u) in enumerate(case.get('wall', [])[:len(pts)]):
        if w % 3:
            c, f = bfacets[w % len(bfacets)]
            wt = np.array(case['pts'][i][1][:dim + 1], float)
            wt[f] = 0.0
            p = wt @ g.V[c] / wt.sum()
            for _ in range(abs(u)):
                p = np.nextafter(p, p + (1.0 if u > 0 else -1.0))
            cells[i], pts[i] = c, p
            nwall += 1
    N = len(pts)
    pd = min(3, dim + case.get('more', 0))           # the particles may have more coordinates than the mesh
    dt = dtlib.record_dtype('xyz'[:pd])
    seg = np.zeros(N, dt)
    for i in range(N):
        for k in range(dim):
            seg[i][k] = pts[i][k]
        for k in range(dim, pd):
            seg[i][k] = 0.7 * (i + k) - 1.9
        seg[i]['cell_index'] = cells[i]
    ncomp = 1 if el[2] == 'scalar' else dim
    fdt = np.dtype([(k, np.float64) for k in 'xyz'[:ncomp]])
    S = 12345.678
    scale = case['scale']
    ref = seg.copy()
    for r in range(case['rounds']):
        vals = dtlib.fill(F, case['seed'] + r, scale)
        exp = expected(g, vals, F, el, cells, pts)
        n = min(case['slicelen'], N) if r else N
        # Python
        out = np.zeros(N + case['extra'], fdt)
        for k in fdt.names:
            out[k][:] = S
        F.interpolate_field_to_points(seg[0:n], out)
        for k, nm in enumerate(fdt.names):
            for i in range(n):
                check(abs(out[nm][i] - exp[i, k]) <= 1e-9 * scale, 'Python %s%d %s: point %d %s in cell %d: component %s is %r, expected %r', el[0], el[1], el[2], i, pts[i], cells[i], nm, out[nm][i], exp[i, k])
            check(np.all(out[nm][n:] == S), 'Python: entries past the requested points were changed')
        # C++
        if el == ('DG', 0, 'vector'):
            f = getattr(dfs, 'interpolate_field_to_points_' + dtlib.CARTESIAN[pd])
            o2 = np.full((N + case['extra'] + 1, dim), S)
            f(F, seg, n, o2)
            for i in range(n):
                check(np.allclose(o2[i], exp[i], rtol=1e-13, atol=0), 'C++: point %d in cell %d: %s, expected %s', i, cells[i], o2[i], exp[i])
            check(np.all(o2[n:] == S), 'C++: entries past the requested points were changed')
            ctx.label('cpp')
        check(np.array_equal(dtlib.values(F), vals), 'interpolation changed the field')
        check(seg.tobytes() == ref.tobytes(), 'interpolation changed the particles')
    # a random external field is the field times one number per point, and zero exactly where the field is
    if ncomp == dim and N:
        v = dtlib.values(F)
        v[v < 0] = 0.0
        F.function.vector()[:] = v
        exp = expected(g, v, F, el, cells, pts)
        out = np.zeros(N + case['extra'], fdt)
        for k in fdt.names:
            out[k][:] = S
        np.random.seed(case['seed'])
        F.interpolate_random_field_to_points(seg, out)
        fac = []
        for i in range(N):
            o = np.array([out[nm][i] for nm in fdt.names])
            check(np.all(np.isfinite(o)), 'random field: %s', o)
            if not np.any(exp[i]):
                check(np.all(np.abs(o) <= 1e-9 * scale * 10), 'random field is %s where the field is zero', o)
            else:
                j = int(np.argmax(np.abs(exp[i])))
                check(np.all(np.abs(o - exp[i] * (o[j] / exp[i][j])) <= 1e-8 * (scale + np.abs(o).max())), 'random field %s is not a multiple of %s', o, exp[i])
                if abs(exp[i][j]) > 1e-3 * scale:
                    fac.append(o[j] / exp[i][j])
        s = np.sort(np.array(fac + [0.0, 1.0]))
        check(len(fac) == 0 or np.diff(s).min() > 1e-11, 'random field: multiples of the field at %d points are not independent random numbers: %s', len(fac), fac)
        for nm in fdt.names:
            check(np.all(out[nm][N:] == S), 'random field: entries past the requested points were changed')
    if nwall:
        ctx.label('wall')
    ctx.label('dim%d' % dim + ('-more' if pd > dim else ''), '%s%d-%s' % el)
    ctx.nontrivial(len(set(cells)) > 1 and case['extra'] > 0)

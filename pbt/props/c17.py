"""C17: field arithmetic, as a sequence of operations on a pool of fields against numpy."""
RULE = ('a case is a mesh (1-3D or radial), seven fields on it (scalar and vector, vertex and cell based, two of some kinds) with generated values, and a sequence of 1-12 operations '
        '(set to a constant, set on a region, multiply, multiply on a region, gaussian multiply/set, add a multiple of another field, divide by cell volumes, add a point weight to cell / vertices, '
        'integrate a delta function). After every operation all entries of all fields are compared with a numpy model. Non-trivial: at least three operations of three kinds, one with a region or a point.')
ASSUMPTIONS = ['gaussian operations are compared for support, scaling with the standard deviation and zero outside the region; the distribution itself is not tested']
CASES = {'quick': 5000, 'thorough': 24000}
KINDS = [('CG', 1, 'scalar'), ('CG', 1, 'scalar'), ('DG', 0, 'scalar'), ('DG', 0, 'scalar'), ('CG', 1, 'vector'), ('DG', 0, 'vector'), ('DG', 0, 'vector')]


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    val = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.5, 3.0, -1e10, 1.6e-19]), st.floats(-10, 10, width=32))
    box = st.tuples(st.floats(0, 0.875, width=32), st.floats(0.0625, 1, width=32))
    reg = st.one_of(st.none(), st.just('all'), st.tuples(box, box, box).map(list))
    pt = st.tuples(st.integers(0, 200), st.lists(st.floats(0.03125, 1.0, width=32), min_size=4, max_size=4), st.sampled_from([1.0, 0.25, 1e8])).map(list)
    f = st.integers(0, 6)
    op = st.one_of(
        st.tuples(st.just('set'), f, val, reg), st.tuples(st.just('mul'), f, val, reg), st.tuples(st.just('gset'), f, st.floats(0.125, 5, width=32), reg),
        st.tuples(st.just('gmul'), f, st.floats(0.125, 5, width=32), reg), st.tuples(st.just('madd'), f, f, st.one_of(st.none(), val)),
        st.tuples(st.just('vol'), st.sampled_from([2, 3])), st.tuples(st.just('cellw'), st.sampled_from([2, 3]), pt), st.tuples(st.just('dofw'), st.sampled_from([0, 1]), pt),
        st.tuples(st.just('delta'), st.sampled_from([0, 1]), pt)).map(list)
    rad = st.booleans()

    def fin(t):
        m, r = dict(t[0]), t[3]
        if r and m['dim'] == 1:
            w = m['hi'][0] - m['lo'][0]
            m['lo'], m['hi'], m['radial'] = [0.3 * w], [1.3 * w], True
        return dict(mesh=m, seed=t[1], ops=t[2])
    return st.tuples(dtgen.mesh_strategy(small=True), st.integers(0, 10 ** 6), st.integers(1, 12).flatmap(lambda n: st.lists(op, min_size=n, max_size=n)), rad).map(fin)


def preload():
    import simlib
    simlib.preload(cpp=False)


def region(M, g, spec):
    """a region of the mesh and its cells; None if it would be empty"""
    import numpy as np
    from Dolfin_Module import RectangularRegion_C, WholeMesh_C
    if spec == 'all':
        return WholeMesh_C(M), list(range(g.nc))
    lo, hi = g.X.min(0), g.X.max(0)
    a = [float(lo[k] + spec[k][0] * (hi[k] - lo[k])) for k in range(g.dim)]
    b = [float(a[k] + spec[k][1] * (hi[k] - lo[k])) for k in range(g.dim)]
    mid = g.V.mean(1)
    tol = max(1e-6 * g.h, 2e-10)      # regions have an absolute tolerance of 1e-10
    if np.any(np.abs(mid - a) < tol) or np.any(np.abs(mid - b) < tol):
        return None, None
    cells = [c for c in range(g.nc) if np.all(mid[c] >= a) and np.all(mid[c] <= b)]
    if not cells:
        return None, None
    return RectangularRegion_C(M, a[0] if g.dim == 1 else tuple(a), b[0] if g.dim == 1 else tuple(b)), cells


def run(case, ctx):
    import numpy as np
    from core import check
    import dtlib
    from Dolfin_Module import Field_C
    mesh, M = dtlib.make_mesh_M(case['mesh'])
    g = dtlib.Geo(mesh)
    radial = bool(case['mesh'].get('radial'))
    F, V = [], []
    for i, (e, d, t) in enumerate(KINDS):
        f = Field_C(M, element_type=e, element_degree=d, field_type='scalar') if t == 'scalar' else Field_C(M, element_type=e, element_degree=d, field_type='vector')
        F.append(f)
        V.append(dtlib.fill(f, case['seed'] + i, 1.0))
    cd = [dtlib.cell_dofs(f) for f in F]
    vd = [dtlib.vertex_dofs(F[i], g) if i < 2 else None for i in range(7)]
    pdt = dtlib.record_dtype(dtlib.COORDS[dtlib.CARTESIAN[g.dim]])
    kinds, special = set(), False
    for n, op in enumerate(case['ops']):
        o, i = op[0], op[1]
        slack = None                   # absolute tolerance of the operation
        gauss = None
        if o in ('set', 'mul', 'gset', 'gmul'):
            R, cells = (None, None)
            if op[3] is not None:
                R, cells = region(M, g, op[3])
                if R is None:
                    continue
                special = True
            dofs = np.arange(F[i].function_len) if R is None else np.array(sorted(set(cd[i][cells].ravel())))
            old = V[i].copy()
            rest = np.ones(len(old), bool)
            rest[dofs] = False
            if o == 'set':
                F[i].set_values(op[2]) if R is None else F[i].set_values(op[2], subdomain=R)
                V[i] = np.where(rest, 0.0, op[2])
            elif o == 'mul':
                F[i].multiply_values(op[2]) if R is None else F[i].multiply_values(op[2], subdomain=R)
                V[i] = np.where(rest, old, old * op[2])
            else:
                st = np.random.get_state()
                np.random.seed(case['seed'] % 1000 + n)
                fn = (lambda s: F[i].set_gaussian_values(s, subdomain=R)) if o == 'gset' else (lambda s: F[i].multiply_values(s, gaussian=True, subdomain=R))
                fn(op[2])
                got = dtlib.values(F[i])
                # the same random numbers with twice the standard deviation give twice the values
                F[i].function.vector()[:] = old
                np.random.seed(case['seed'] % 1000 + n)
                fn(2.0 * op[2])
                got2 = dtlib.values(F[i])
                np.random.set_state(st)
                out = np.zeros(len(old)) if o == 'gset' else old
                check(np.array_equal(got[rest], out[rest]), 'op %d %s: entries outside the region changed to %s, expected %s', n, op, got[rest], out[rest])
                check(np.all(np.isfinite(got)), 'op %d %s: non-finite values', n, op)
                check(np.allclose(got2[dofs], 2 * got[dofs], rtol=1e-10, atol=0), 'op %d %s: twice the standard deviation gives %s, not twice %s', n, op, got2[dofs], got[dofs])
                mv = got[dofs] if o == 'gset' else got[dofs][old[dofs] != 0] / old[dofs][old[dofs] != 0]
                check(np.all(mv != 0.0), 'op %d %s: some entries of the region were not drawn: %s', n, op, mv)
                if o == 'gmul' and len(mv) > 1:
                    check(len(set(np.round(mv / op[2], 9))) == len(mv), 'op %d %s: multipliers %s are not independent draws', n, op, mv)
                check(np.all(np.abs(mv) < 8 * op[2]), 'op %d %s: drawn values %s too far for standard deviation %r', n, op, mv, op[2])
                V[i] = got2
        elif o == 'madd':
            j = op[2]
            if KINDS[i] != KINDS[j]:
                j = i ^ 1 if i < 4 else (i if i == 4 else 11 - i)
            if op[3] is None:
                F[i].multiply_add(F[j])
            else:
                F[i].multiply_add(F[j], op[3])
            V[i] = V[i] + (1.0 if op[3] is None else op[3]) * V[j]
        elif o == 'vol':
            F[i].divide_by_cell_volumes()
            v = V[i].copy()
            for c in range(g.nc):
                v[cd[i][c]] /= dtlib.cell_volume(g, c, radial)
            V[i] = v
            slack = 1e-8 * np.abs(v)        # the volume of a thin cell far from the origin is less accurate
        else:
            c = op[2][0] % g.nc
            x = g.point_in(c, op[2][1])
            p = np.zeros(1, pdt)
            for k, nm in enumerate('xyz'[:g.dim]):
                p[0][nm] = x[k]
            p[0]['weight'] = op[2][2]
            p[0]['cell_index'] = c
            special = True
            v = V[i].copy()
            slack = 1e-9 * op[2][2]
            if o == 'cellw':
                F[i].add_weight_to_cell(p[0])
                v[cd[i][c]] += op[2][2]
            else:
                (F[i].interpolate_delta_function_to_dofs if o == 'dofw' else F[i].integrate_delta_function)(p[0])
                v[vd[i][c]] += op[2][2] * g.bary(c, x)
            V[i] = v
        kinds.add(o)
        for k in range(7):
            got = dtlib.values(F[k])
            fv = np.array(F[k].function_values.get_local())
            tol = 1e-12 * np.abs(V[k]) + (0.0 if slack is None else slack) if k == i else 0.0
            bad = np.nonzero(~(np.abs(got - V[k]) <= tol + (1e-11 * np.abs(V[k]).max() if k == i else 0.0)))[0]
            check(len(bad) == 0, 'op %d %s: entry %s of field %d is %s, expected %s', n, op, bad[:1], k, got[bad[:1]], V[k][bad[:1]])
            check(np.array_equal(fv, got), 'op %d %s: the stored values and the function of field %d differ', n, op, k)
        V[i] = dtlib.values(F[i])
        if not np.all(np.isfinite(V[i])) or np.abs(V[i]).max() > 1e100:
            break
    ctx.label(*sorted(kinds))
    ctx.nontrivial(len(kinds) >= 3 and special)

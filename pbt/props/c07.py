"""C07: find_facet and point-in-cell (Python and C++) against barycentric geometry."""
RULE = ('a case is a mesh and up to 12 queries (cell, start point in it, displacement from 1e-3 to 30 cell sizes, in a random or axis or '
        'facet-normal direction, or zero). Exit facet, fraction and normal of both implementations are compared with the barycentric '
        'computation; queries whose exact answer is within 1e-7 of a tie are not judged. Non-trivial: at least one judged query '
        'that leaves its cell and one that does not, or a query leaving through each of two different facets.')
ASSUMPTIONS = ['start points are inside the cell (the movers call it only so)', 'ties (paths through vertices/edges) are not judged']
CASES = {'quick': 16000, 'thorough': 60000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    q = st.fixed_dictionaries(dict(
        c=st.integers(0, 300), w=st.lists(st.floats(0.02, 1.0), min_size=4, max_size=4),
        kind=st.sampled_from(['dir', 'dir', 'dir', 'axis', 'normal', 'zero', 'tocell', 'fromfacet', 'fromfacet', 'near']),
        d=st.lists(st.floats(-1.0, 1.0), min_size=3, max_size=3), k=st.integers(0, 7),
        s=st.sampled_from([1e-3, 0.1, 0.5, 1.0, 2.0, 30.0, 1e-8]), e=st.sampled_from([1e-3, 1e-6, 1e-9, 1e-11, 1e-11])))
    return st.fixed_dictionaries(dict(mesh=dtgen.mesh_strategy(), more=st.sampled_from([0, 0, 0, 1, 2]), qs=st.lists(q, min_size=1, max_size=12)))


def preload():
    import dolfin_functions_solib


def run(case, ctx):
    import numpy as np
    from core import check
    import dtlib
    import dolfin_functions_solib as dfs
    from Dolfin_Module import Mesh_C
    mesh = dtlib.make_df_mesh(case['mesh'])
    g = dtlib.Geo(mesh)
    M = Mesh_C(Mesh=mesh, coordinate_system='Cartesian', compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
    fv = dtlib.facet_vertex_sets(mesh)
    dim = g.dim
    pd = min(3, dim + case.get('more', 0))           # positions may have more coordinates than the mesh
    dt = dtlib.record_dtype('xyz'[:pd])
    left, stayed = set(), False
    for q in case['qs']:
        c = q['c'] % g.nc
        x0 = g.point_in(c, q['w'])
        h = float(np.linalg.norm(g.V[c].max(0) - g.V[c].min(0)))
        if q['kind'] == 'dir':
            dx = np.array(q['d'][:dim]) * h * q['s']
        elif q['kind'] == 'axis':
            dx = np.zeros(dim)
            dx[q['k'] % dim] = h * q['s'] * (1 if q['k'] < 4 else -1)
        elif q['kind'] == 'normal':
            dx = g.normal(c, q['k'] % (dim + 1)) * h * q['s']
        elif q['kind'] == 'tocell':
            dx = g.point_in(q['k'] % g.nc, [abs(v) + 0.05 for v in q['d']] + [0.3]) - x0
        elif q['kind'] == 'fromfacet':        # as after a crossing: start on a facet, heading into the cell
            k = q['k'] % (dim + 1)
            w = list(q['w'][:dim + 1])
            w[k] = 0.0
            x0 = g.point_in(c, w)
            n = g.normal(c, k)
            dx = np.array(q['d'][:dim]) * h * q['s']
            if abs(n @ dx) < 1e-3 * h * q['s']:
                dx = -n * h * q['s']
            elif n @ dx > 0:
                dx = dx - 2 * (n @ dx) * n
        elif q['kind'] == 'near':             # start close to a facet; the displacement is comparable or much larger
            k = q['k'] % (dim + 1)
            w = [v / sum(q['w'][:dim + 1]) for v in q['w'][:dim + 1]]
            w[k] = q['e']
            x0 = g.point_in(c, w)
            n = g.normal(c, k)
            dx = n * abs(q['d'][0]) + 0.5 * (np.array(q['d'][:dim]) - (n @ np.array(q['d'][:dim])) * n)
            dx = dx * h * (q['s'] if q['k'] & 1 else 4 * q['e'])
        else:
            dx = np.zeros(dim)
        i, t, margin = g.exit(c, x0, dx)
        L = float(np.linalg.norm(dx))
        judged = L == 0.0 or (margin * L > 1e-11 * g.scale and (L > 1e-9 * g.scale or margin > 1e-3))
        ftol = 1e-6 + 1e-12 * g.scale / max(L, 1e-300)
        if i is not None and L > 0:           # almost along the exit facet: the rounding of the distance, over the motion across
            ftol += 1e-14 * (g.scale + L) / max(abs(float(g.normal(c, i) @ dx)), 1e-300)
        xm, dm = [0.3 * k - q['d'][0] for k in range(pd - dim)], [3.0 * q['d'][k % 3] + 0.1 for k in range(pd - dim)]
        rp = M.find_facet(np.concatenate([x0, xm]), np.concatenate([dx, dm]), c)
        rc = dfs.find_facet(M, [float(v) for v in x0] + xm, [float(v) for v in dx] + dm, c)
        if judged:
            for name, r in (('find_facet', rp), ('C++ find_facet', rc)):
                f, fr, n = r
                if not np.any(dx) or i is None:
                    check(f == Mesh_C.NO_FACET, '%s: cell %d x0 %s dx %s: facet %s, expected none', name, c, x0, dx, f)
                    check(abs(fr - 1.0) < 1e-12, '%s: cell %d x0 %s dx %s: fraction %s without a crossing', name, c, x0, dx, fr)
                    stayed = True
                    continue
                check(0 <= f <= dim, '%s: cell %d x0 %s dx %s: facet %s, expected the one opposite vertex %d', name, c, x0, dx, f, i)
                key = fv[int(M.cell_entity_indices_dict['facet'][c][f])]
                check(key == g.facet_key(c, i), '%s: cell %d x0 %s dx %s: crossed facet %s, expected %s', name, c, x0, dx, sorted(key), sorted(g.facet_key(c, i)))
                check(abs(float(fr) - t) < ftol, '%s: cell %d x0 %s dx %s: fraction %s, expected %s', name, c, x0, dx, fr, t)
                check(np.allclose(np.asarray(n).ravel()[:dim], g.normal(c, i), rtol=0, atol=1e-7), '%s: cell %d: normal %s, expected %s', name, c, n, g.normal(c, i))
                left.add(int(f))
        # containment of the start, end and the point just before/after the crossing
        pts = [x0, x0 + dx]
        if i is not None:
            pts += [x0 + dx * t * 0.999, x0 + dx * t * 1.001]
        for x in pts:
            d = g.depth(c, x)
            if abs(d) < 1e-9 * g.scale:
                continue
            p = np.zeros(1, dt)
            for k in range(dim):
                p[0][k] = x[k]
            for k in range(dim, pd):
                p[0][k] = 2.0 * q['d'][1] + k
            e = d > 0
            r = M.is_inside_cell(p[0], c)
            check(bool(r) == e, 'is_inside_cell(%s, %d) is %s, signed depth %g', x, c, r, d)
            rr = dfs.is_inside_vertices(mesh, [int(v) for v in g.C[c]], [float(v) for v in x] + xm)
            check(bool(rr) == e, 'C++ is_inside_vertices(%s, cell %d) is %s, signed depth %g', x, c, rr, d)
        for v in g.C[c]:                      # the cell is closed: its own vertices are in it
            p = np.zeros(1, dt)
            for k in range(dim):
                p[0][k] = g.X[v][k]
            check(M.is_inside_cell(p[0], c), 'is_inside_cell: vertex %d is not in its cell %d', v, c)
            check(dfs.is_inside_vertices(mesh, [int(u) for u in g.C[c]], [float(u) for u in g.X[v]]), 'C++ is_inside_vertices: vertex %d is not in its cell %d', v, c)
        ctx.label('judged' if judged else 'tie', q['kind'])
    ctx.label('dim%d' % dim + ('-more' if pd > dim else ''))
    ctx.nontrivial(len(left) > 1 or (left and stayed))

"""C08: mesh tables (Python dictionaries, C++ arrays) against geometry recomputed with numpy."""
RULE = ('a case is a mesh (1-D/2-D/3-D, 1..9 cells per direction, graded, jittered, any diagonal; sometimes radial) plus query '
        'points inside random cells, on a shell around the domain and far outside. Every table entry of every cell is compared '
        'with values recomputed from vertex coordinates. Non-trivial: the mesh has more than one cell.')
ASSUMPTIONS = ['query points are kept a relative distance 1e-6 away from cell facets']
CASES = {'quick': 10000, 'thorough': 60000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    return st.fixed_dictionaries(dict(
        mesh=dtgen.mesh_strategy(), spherical=st.booleans(),
        pts=st.lists(st.tuples(st.integers(0, 200), st.lists(st.floats(0.01, 1.0), min_size=4, max_size=4)), max_size=6),
        outs=st.lists(st.tuples(st.integers(0, 5), st.sampled_from([1e-4, 0.1, 3.0]),
                                st.lists(st.floats(-0.3, 1.3), min_size=3, max_size=3)), max_size=4)))


def run(case, ctx):
    import numpy as np
    import dolfin as df
    from core import check, close
    import dtlib
    from Dolfin_Module import Mesh_C
    spec = case['mesh']
    sph = spec['dim'] == 1 and case['spherical']
    if sph:                                   # radial meshes have r >= 0
        w = spec['hi'][0] - spec['lo'][0]
        spec = dict(spec, lo=[abs(spec['lo'][0])], hi=[abs(spec['lo'][0]) + w])
    mesh = dtlib.make_df_mesh(spec)
    g = dtlib.Geo(mesh)
    M = Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if sph else 'Cartesian', compute_dictionaries=True,
               compute_cpp_arrays=True, compute_tree=True)
    fv = dtlib.facet_vertex_sets(mesh)
    dim, nf = g.dim, g.dim + 1
    check(M.gdim == dim and M.tdim == dim, 'mesh dimension %s/%s, expected %s', M.gdim, M.tdim, dim)
    check(set(M.cell_dict) == set(range(g.nc)), 'cell table does not list every cell')
    normals_cpp = M.mea_object
    for c in range(g.nc):
        verts = [int(v) for v in g.C[c]]
        check(list(M.cell_vertices_dict[c]) == verts, 'vertices of cell %d: %s, expected %s', c, M.cell_vertices_dict[c], verts)
        check(M.cell_dict[c].index() == c, 'cell table entry %d is cell %d', c, M.cell_dict[c].index())
        fi = M.cell_entity_indices_dict['facet'][c]
        keys = [fv[int(f)] for f in fi]
        check(len(fi) == nf and set(keys) == {g.facet_key(c, i) for i in range(nf)},
              'facets of cell %d: %s do not have the vertex sets of its facets', c, fi)
        N = np.asarray(M.cell_facet_normals_dict[c])
        Ncpp = np.asarray(normals_cpp.get_cell_facet_normals(c)).reshape(nf, 3)
        nb = list(M.cell_neighbors_dict[c])
        nbcpp = list(normals_cpp.get_cell_neighbors(c))
        check(N.shape == (nf, dim), 'normals of cell %d have shape %s', c, N.shape)
        for i in range(nf):
            # which vertex is opposite to facet i of this cell
            opp = [k for k in range(nf) if g.facet_key(c, k) == keys[i]][0]
            n = g.normal(c, opp)
            check(np.allclose(N[i], n, rtol=0, atol=1e-7), 'normal %d of cell %d is %s, expected %s', i, c, N[i], n)
            check(np.allclose(Ncpp[i][:dim], n, rtol=0, atol=1e-7), 'C++ normal %d of cell %d is %s, expected %s', i, c, Ncpp[i], n)
            e = g.neighbor(c, opp)
            check(int(nb[i]) == e, 'neighbour %d of cell %d is %s, expected %s', i, c, nb[i], e)
            check(int(nbcpp[i]) == e, 'C++ neighbour %d of cell %d is %s, expected %s', i, c, nbcpp[i], e)
        if sph:
            r = sorted(g.V[c, :, 0])
            v = 4.0 / 3.0 * np.pi * (r[1] ** 3 - r[0] ** 3)
        else:
            v = g.volume(c)
        check(close(M.cell_volume_dict[c], v, 1e-7, 0.0), 'volume of cell %d is %r, expected %r', c, M.cell_volume_dict[c], v)
    for vtx in range(len(g.X)):
        e = sorted(c for c in range(g.nc) if vtx in g.C[c])
        check(sorted(M.vertex_cells_dict[vtx]) == e, 'cells of vertex %d: %s, expected %s', vtx, M.vertex_cells_dict[vtx], e)
    tol = 1e-6
    dt = dtlib.record_dtype('xyz'[:dim])
    for ci, w in case['pts']:
        c = ci % g.nc
        x = g.point_in(c, w)
        if g.depth(c, x) < tol * g.hmin[c]:
            continue
        p = np.zeros(1, dt)
        for d in range(dim):
            p[0][d] = x[d]
        k = M.compute_cell_index(p[0])
        check(k == c, 'point %s of cell %d found in cell %s', x, c, k)
        ctx.label('inside-point')
    lo, hi = g.X.min(0), g.X.max(0)
    for side, dist, w in case['outs']:
        x = lo + (hi - lo) * np.asarray(w[:dim])
        d = side % dim
        off = dist * (hi[d] - lo[d])
        x[d] = lo[d] - off if side % 2 else hi[d] + off
        p = np.zeros(1, dt)
        for d in range(dim):
            p[0][d] = x[d]
        k = M.compute_cell_index(p[0])
        check(k == Mesh_C.NO_CELL, 'point %s outside the mesh found in cell %s', x, k)
        ctx.label('outside-point')
    ctx.label('dim%d' % dim, 'spherical' if sph else 'cartesian')
    ctx.nontrivial(g.nc > 1)

PROP = 'C07'
NEEDS = 'a 3-D path that crosses the planes of two facets of the tetrahedron, the last-numbered one later on the path than an earlier-numbered one'
BREAKS = 'the C++ facet finder reports the last facet, at a later fraction of the path, although the path leaves the cell through another facet first'
EDITS = [('cpp/dolfin_functions.cpp',
"""            if (distanceToFacet < dxFraction*n3DotDx)
""",
"""            if (distanceToFacet < n3DotDx && (facet == NO_FACET || distanceToFacet < dxFraction*n3DotDx || facet == 0))
""")]
LIBS = ['dtlib.py', 'core.py']
DEMO = '''
import sys, dt_pybind11_bridge, numpy_types_solib
import numpy as np, dtlib
import dolfin_functions_solib as dfs
mesh, M = dtlib.make_mesh_M(dict(dim=3, n=[1, 1, 1], lo=[0.0] * 3, hi=[1.0] * 3, jit=0.0, seed=0, grade=0.0))
g = dtlib.Geo(mesh)
rs = np.random.RandomState(1)
bad = 0
for k in range(400):
    c = k % g.nc
    x = g.point_in(c, rs.uniform(0.1, 1, 4)); d = rs.uniform(-2, 2, 3)
    i, t, m = g.exit(c, x, d)
    if m < 1e-6:
        continue
    f, fr, n = M.find_facet(x, d, c)
    r = dfs.find_facet(M, [float(v) for v in x], [float(v) for v in d], c)
    if r[0] != f or abs(r[1] - fr) > 1e-9:
        bad += 1
print('bad', bad)
sys.exit(1 if bad else 0)
'''

"""Worker-side helpers: meshes from JSON specs and an independent geometry oracle (numpy only)."""
import itertools
import numpy as np


# ---------------------------------------------------------------- meshes
def make_df_mesh(spec):
    """spec: dim, n (cells per direction), lo, hi, diag, jit (0..1), seed, grade; optional rot (degrees), hole (cells left out), perm (seed of a renumbering)."""
    import dolfin as df
    dim = spec['dim']
    n, lo, hi = spec['n'], spec['lo'], spec['hi']
    if dim == 1:
        m = df.IntervalMesh(n[0], lo[0], hi[0])
    elif dim == 2:
        m = df.RectangleMesh(df.Point(lo[0], lo[1]), df.Point(hi[0], hi[1]), n[0], n[1], spec.get('diag', 'right'))
    else:
        m = df.BoxMesh(df.Point(*lo), df.Point(*hi), n[0], n[1], n[2])
    c = m.coordinates()
    g = spec.get('grade', 0.0)
    if g:
        for d in range(dim):
            t = (c[:, d] - lo[d]) / (hi[d] - lo[d])
            c[:, d] = lo[d] + (hi[d] - lo[d]) * (t + g * t * (1.0 - t) * 0.8)
    j = spec.get('jit', 0.0)
    if j:
        rs = np.random.RandomState(spec.get('seed', 0) % (2 ** 31))
        amp = {1: 0.3, 2: 0.22, 3: 0.12}[dim] * j * (1 - abs(g) * 0.8)
        for k in range(len(c)):
            for d in range(dim):
                h = (hi[d] - lo[d]) / n[d]
                u = rs.uniform(-1, 1)
                # boundary vertices may slide along the boundary but not off it
                if abs(c[k, d] - lo[d]) > 1e-9 * h and abs(c[k, d] - hi[d]) > 1e-9 * h:
                    c[k, d] += amp * h * u
    R = rotation(spec)
    if R is not None:
        mid = 0.5 * (np.array(lo) + np.array(hi))
        c[:, :] = (c - mid) @ R.T + mid
    if spec.get('hole') or spec.get('perm'):
        m = rebuild(m, spec)
    return m


def rotation(spec):
    """matrix of the rotation of the whole mesh about the middle of its box (spec['rot'], degrees), or None"""
    a = np.deg2rad(spec.get('rot', 0.0))
    if not a or spec['dim'] == 1:
        return None
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    if spec['dim'] == 2:
        return R
    A, B = np.eye(3), np.eye(3)
    A[:2, :2] = R
    b = 1.7 * a
    B[1:, 1:] = [[np.cos(b), -np.sin(b)], [np.sin(b), np.cos(b)]]
    return B @ A


def box_coords(spec, X):
    """coordinates of points of the mesh in the frame of its box (before the rotation)"""
    R = rotation(spec)
    if R is None:
        return np.array(X, float)
    mid = 0.5 * (np.array(spec['lo']) + np.array(spec['hi']))
    return (np.array(X, float) - mid) @ R + mid


def rebuild(m, spec):
    """the mesh without some cells (it stays connected through facets), with cells and vertices numbered in another order"""
    import dolfin as df
    dim = spec['dim']
    X, C = np.array(m.coordinates()), [tuple(int(v) for v in c) for c in m.cells()]
    keep = list(range(len(C)))

    def connected(ks):
        fc = {}
        for k in ks:
            for i in range(dim + 1):
                fc.setdefault(frozenset(C[k][:i] + C[k][i + 1:]), []).append(k)
        nb = {k: set() for k in ks}
        for v in fc.values():
            if len(v) == 2:
                nb[v[0]].add(v[1])
                nb[v[1]].add(v[0])
        seen, todo = {ks[0]}, [ks[0]]
        while todo:
            for k in nb[todo.pop()] - seen:
                seen.add(k)
                todo.append(k)
        return len(seen) == len(ks)
    if dim > 1:
        for h in spec.get('hole') or []:
            rest = [k for k in keep if k != h % len(C)]
            if len(rest) > 1 and connected(rest):
                keep = rest
    C = [C[k] for k in keep]
    used = sorted(set(v for c in C for v in c))
    rs = np.random.RandomState((spec.get('perm') or 0) % (2 ** 31))
    if spec.get('perm'):
        used = [used[k] for k in rs.permutation(len(used))]
        C = [C[k] for k in rs.permutation(len(C))]
    num = {v: k for k, v in enumerate(used)}
    ed = df.MeshEditor()
    out = df.Mesh()
    ed.open(out, {1: 'interval', 2: 'triangle', 3: 'tetrahedron'}[dim], dim, dim)
    ed.init_vertices(len(used))
    ed.init_cells(len(C))
    for v in used:
        ed.add_vertex(num[v], X[v])
    for k, c in enumerate(C):
        ed.add_cell(k, np.array([num[v] for v in c], dtype=np.uintp))
    ed.close(True)
    return out


class Geo:
    """Geometry of a simplex mesh, from vertex coordinates and cell connectivity only."""

    def __init__(self, mesh):
        self.mesh = mesh
        self.X = np.array(mesh.coordinates(), dtype=float)
        self.C = np.array(mesh.cells(), dtype=int)
        self.dim = self.X.shape[1]
        self.nc = len(self.C)
        self.h = float(np.max(self.X.max(0) - self.X.min(0)))
        self.scale = max(self.h, float(np.abs(self.X).max()))
        self.V = self.X[self.C]                      # (nc, dim+1, dim)
        self.T = np.transpose(self.V[:, 1:] - self.V[:, :1], (0, 2, 1))
        self.Tinv = np.linalg.inv(self.T)
        self.facet_cells = {}
        for c in range(self.nc):
            for i in range(self.dim + 1):
                self.facet_cells.setdefault(self.facet_key(c, i), []).append(c)
        # length scale of each cell: smallest height
        self.hmin = np.array([1.0 / np.linalg.norm(self.grads(c), axis=1).max() for c in range(self.nc)])

    def facet_key(self, c, i):
        """vertex set of the facet of cell c opposite its i-th vertex"""
        return frozenset(int(v) for k, v in enumerate(self.C[c]) if k != i)

    def bary(self, c, x):
        l = self.Tinv[c] @ (np.asarray(x, float)[:self.dim] - self.V[c, 0])
        return np.concatenate([[1.0 - l.sum()], l])

    def grads(self, c):
        """gradients of the barycentric coordinates, (dim+1, dim)"""
        g = self.Tinv[c]
        return np.vstack([-g.sum(0), g])

    def depth(self, c, x):
        """signed distance (approx.) of x inside cell c: min over facets of the distance to its plane"""
        return float(np.min(self.bary(c, x) / np.linalg.norm(self.grads(c), axis=1)))

    def contains(self, c, x, tol):
        return self.depth(c, x) >= -tol

    def find(self, x, tol=0.0):
        """all cells containing x within tol"""
        x = np.asarray(x, float)[:self.dim]
        l = np.einsum('cij,cj->ci', self.Tinv, x[None, :] - self.V[:, 0])
        b = np.concatenate([1.0 - l.sum(1, keepdims=True), l], 1)
        g = np.concatenate([-self.Tinv.sum(1, keepdims=True), self.Tinv], 1)
        d = (b / np.linalg.norm(g, axis=2)).min(1)
        return [int(k) for k in np.nonzero(d >= -tol)[0]]

    def normal(self, c, i):
        """outward unit normal of the facet of c opposite vertex i"""
        g = -self.grads(c)[i]
        return g / np.linalg.norm(g)

    def exit(self, c, x0, dx):
        """(local vertex index opposite to the exit facet or None, fraction, margin).
        margin: how clearly the answer is separated from a tie, relative to the displacement."""
        b0 = self.bary(c, x0)
        db = self.grads(c) @ np.asarray(dx, float)[:self.dim]
        best, ts = None, []
        for i in range(self.dim + 1):
            if db[i] < 0:
                ts.append((b0[i] / -db[i], i))
        ts.sort()
        if not ts or ts[0][0] >= 1.0:
            return None, 1.0, (ts[0][0] - 1.0 if ts else 1.0)
        gap = ts[1][0] - ts[0][0] if len(ts) > 1 else 1.0
        return ts[0][1], ts[0][0], min(gap, 1.0 - ts[0][0])

    def neighbor(self, c, i):
        o = [k for k in self.facet_cells[self.facet_key(c, i)] if k != c]
        return o[0] if o else -1

    def walk(self, c, x0, dx, maxn=10000):
        """Follow a straight path. Returns (list of (cell, vertex index, t), final cell or -1, margin)."""
        x0 = np.asarray(x0, float)
        dx = np.asarray(dx, float)
        out = []
        t = 0.0
        margin = 1.0
        came = None
        for _ in range(maxn):
            b0 = self.bary(c, x0)
            db = self.grads(c) @ dx
            ts = []
            for i in range(self.dim + 1):
                if came is not None and self.facet_key(c, i) == came:
                    continue
                if db[i] < 0:
                    ts.append((b0[i] / -db[i], i))
            ts.sort()
            if not ts:
                return out, c, margin
            margin = min(margin, abs(ts[0][0] - 1.0))
            if ts[0][0] >= 1.0:
                return out, c, margin
            if len(ts) > 1:
                margin = min(margin, ts[1][0] - ts[0][0])
            margin = min(margin, ts[0][0] - t if out else ts[0][0])
            t = ts[0][0]
            out.append((c, ts[0][1], t))
            came = self.facet_key(c, ts[0][1])
            n = self.neighbor(c, ts[0][1])
            if n < 0:
                return out, -1, margin
            c = n
        raise RuntimeError('walk too long')

    def point_in(self, c, w):
        """point of cell c from positive weights"""
        w = np.asarray(w, float)[:self.dim + 1]
        w = w / w.sum()
        return w @ self.V[c]

    def volume(self, c):
        import math
        return abs(np.linalg.det(self.T[c])) / math.factorial(self.dim)


def facet_vertex_sets(mesh):
    """mesh facet index -> frozenset of vertex indices (from the mesh connectivity)"""
    import dolfin as df
    d = mesh.topology().dim()
    if d == 1:
        return {v.index(): frozenset([v.index()]) for v in df.vertices(mesh)}
    mesh.init(d - 1, 0)
    return {f.index(): frozenset(int(v) for v in f.entities(0)) for f in df.facets(mesh)}


# ---------------------------------------------------------------- particle records
COORDS = {'cartesian_x': 'x', 'cartesian_xy': 'xy', 'cartesian_xyz': 'xyz', 'spherical_r': 'r'}
CARTESIAN = {1: 'cartesian_x', 2: 'cartesian_xy', 3: 'cartesian_xyz'}


def case_coords(case):
    """(particle coordinates, those of them that the mesh has) of a simulation spec"""
    if case['mesh'].get('radial'):
        return COORDS['spherical_r'], COORDS['spherical_r']
    d = case['mesh']['dim']
    return COORDS[CARTESIAN[min(3, d + case.get('more', 0))]], COORDS[CARTESIAN[d]]


def pad(v, n):
    """v with zeros appended up to length n"""
    v = np.asarray(v, float)
    return np.concatenate([v, np.zeros(max(0, n - len(v)))])


def record_dtype(coords, prec='f8'):
    return np.dtype([(k, prec) for k in coords] + [(k + '0', prec) for k in coords] + [('u' + k, prec) for k in coords] +
                    [('weight', prec), ('bitflags', 'i4'), ('cell_index', 'i4'), ('unique_ID', 'i4'), ('crossings', 'i4')])


# ---------------------------------------------------------------- Mesh_C and fields
def make_mesh_M(spec, **kw):
    """Mesh_C of a spec. spec['radial'] makes a 1D-spherical-radial mesh."""
    from Dolfin_Module import Mesh_C
    mesh = make_df_mesh(spec)
    a = dict(compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
    a.update(kw)
    return mesh, Mesh_C(Mesh=mesh, coordinate_system='1D-spherical-radial' if spec.get('radial') else 'Cartesian', **a)


def cell_volume(g, c, radial):
    if radial:
        a, b = sorted(g.V[c][:, 0])
        return 4.0 * np.pi / 3.0 * (b ** 3 - a ** 3)
    return g.volume(c)


def cell_dofs(F, comp=None):
    """(ncell, ndofs-in-cell) of the field (or of component comp)"""
    V = F.function_space
    if comp is not None and F.mesh_M.mesh.geometry().dim() > 1:
        V = V.sub(comp)
    dm = V.dofmap()
    return np.array([dm.cell_dofs(c) for c in range(F.mesh_M.mesh.num_cells())], dtype=int)


def vertex_dofs(F, g, comp=None):
    """for a degree-1 Lagrange field: cell -> dofs in the order of the cell's vertices g.C[c].
    Found by matching dof coordinates with vertex coordinates, not by assuming dolfin's local order."""
    x = F.function_space.tabulate_dof_coordinates().reshape(-1, g.dim)
    cd = cell_dofs(F, comp)
    out = np.zeros_like(cd)
    for c in range(g.nc):
        for i in range(g.dim + 1):
            d = np.linalg.norm(x[cd[c]] - g.V[c, i], axis=1)
            k = int(np.argmin(d))
            if d[k] > 1e-9 * g.scale:
                raise RuntimeError('no dof at a vertex')
            out[c, i] = cd[c, k]
    return out


def fill(F, seed, scale=1.0):
    rs = np.random.RandomState(seed % (2 ** 31))
    v = rs.uniform(-1, 1, F.function_len) * scale
    F.function.vector()[:] = v
    return v


def values(F):
    return np.array(F.function.vector().get_local())

"""C11: the field solver solves Poisson's equation with the given boundaries."""
RULE = ('a case is a mesh (1-D, 2-D or 1-D radial; graded, perturbed), a potential of degree 1 or 2, boundary values on generated sets of boundary facets (for the radial solver the inner one may be '
        'left unset), optionally an electric field (DG0, DG1 or CG1), and a history of 1-7 operations on one or two solvers: assemble a constant or linear source density, solve with a generated charge '
        'vector (dense, sparse or zero, with or without a factor), solve again without one. After each solve the discrete equations are evaluated with a stiffness matrix assembled in numpy (own basis '
        'functions, own quadrature). Non-trivial: at least two solves, of which one with a non-zero source.')
ASSUMPTIONS = ['the charge vector belongs to the same element as the potential', 'scaling the charge in place by assembled_charge_factor is accepted (documented), as is leaving it unscaled']
CASES = {'quick': 4000, 'thorough': 24000}

EXPR = {1: [('1.0+2.0*x[0]', (1.0, 2.0, 0.0)), ('-3.0*x[0]', (0.0, -3.0, 0.0))],
        2: [('1.0+2.0*x[0]', (1.0, 2.0, 0.0)), ('x[0]-3.0*x[1]', (0.0, 1.0, -3.0))]}


def strategy(tier):
    from hypothesis import strategies as st
    f = st.floats(-1, 1, allow_nan=False).map(lambda v: v if abs(v) > 1e-9 else 0.0)

    def mesh(kind):
        if kind == 'circ':
            n = st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list)
            d = 2
        else:
            n = st.integers(1, 14).map(lambda k: [k])
            d = 1
        lo = st.lists(st.sampled_from([0.0, 0.5, 1.0, 3.0] if kind == 'sph' else [-1.0, 0.0, 0.37, 10.0]), min_size=d, max_size=d)
        w = st.lists(st.sampled_from([0.01, 0.5, 1.0, 7.0]), min_size=d, max_size=d)
        return st.tuples(n, lo, w, st.sampled_from(['left', 'right', 'left/right', 'crossed']), st.sampled_from([0.0, 0.0, 0.5, 1.0]), st.integers(0, 10 ** 6), st.sampled_from([0.0, 0.0, 0.5, -0.5]), st.sampled_from([0, 0, 0, 1, 2, 3])).map(
            lambda t: dict(dim=d, n=t[0], lo=t[1], hi=[a + b for a, b in zip(t[1], t[2])], diag=t[3], jit=t[4], seed=t[5], grade=t[6], radial=kind == 'sph', perm=t[7]))

    val = st.one_of(st.integers(-10, 10).map(float), st.floats(-1e3, 1e3, allow_nan=False).map(lambda v: v if abs(v) > 1e-9 else 0.0))
    charge = st.fixed_dictionaries(dict(k=st.sampled_from(['dense', 'dense', 'sparse', 'one', 'zero', 'keep']), seed=st.integers(0, 10 ** 6), mag=st.sampled_from([1e-19, 1e-12, 1e-9, 1.0])))
    op = st.integers(0, 9).flatmap(lambda k: st.tuples(st.just('solve'), charge, st.sampled_from([None, None, 1.0, 0.5, -2.0, 0.0, 1e-3])).map(list) if k < 5 else
                                   st.just(['again']) if k < 7 else
                                   st.tuples(st.just('const'), st.one_of(st.sampled_from([None, 0, 3, 0.0, 1e4, -2.5e3, 4100]), f)).map(list) if k < 9 else
                                   st.tuples(st.just('expr'), st.integers(0, 1)).map(list))
    ops = st.lists(st.tuples(op, st.sampled_from([0, 0, 0, 1])).map(list), min_size=1, max_size=7)

    def case(kind):
        return st.fixed_dictionaries(dict(kind=st.just(kind), mesh=mesh(kind), deg=st.sampled_from([1, 1, 2]), E=st.sampled_from([None, ['DG', 0], ['DG', 0], ['CG', 1], ['DG', 1]]),
                                          marks=st.sampled_from([[1, 2], [2, 1], [3, 5], [7, 4]]), vals=st.tuples(val, val, val, val).map(list), unset=st.booleans(), sel=st.integers(0, 2 ** 16 - 1),
                                          shape=st.sampled_from(['ends', 'ends', 'any']), other=st.booleans(), reasm=st.sampled_from([False, False, True]),
                                          lin=st.sampled_from([['lu', None], [None, None], ['cg', 'ilu'], ['gmres', 'jacobi']]), ops=ops))
    return st.sampled_from(['x', 'circ', 'sph']).flatmap(case)


def preload():
    # compile the few variational forms once, before the workers are forked
    import os, tempfile, shutil, numpy as np
    import dtlib
    here = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        for kind in ('x', 'circ', 'sph'):
            dim = 2 if kind == 'circ' else 1
            for deg in (1, 2):
                for E in (['DG', 0], ['CG', 1], ['DG', 1]):
                    c = dict(kind=kind, mesh=dict(dim=dim, n=[2] * dim, lo=[1.0] * dim, hi=[2.0] * dim, radial=kind == 'sph'), deg=deg, E=E, marks=[1, 2], vals=[0.0, 1.0, 0.0, 1.0], unset=False,
                             sel=0, shape='ends', other=False, reasm=False, lin=['lu', None], ops=[])
                    W = World(c)
                    s = W.S[0]
                    s.assemble_source_expression(1.0)
                    if E == ['DG', 0]:
                        for e, _ in EXPR[dim]:
                            s.assemble_source_expression(e)
                    s.solve_for_phi()
    except BaseException:
        pass                                   # reported by the cases themselves
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def quad(dim, n=5):
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    if dim == 1:
        return [(np.array([1 - a, a]), b) for a, b in zip(x, w)]
    out = []                                   # Duffy: (a, (1-a) b), Jacobian 1-a, area of the reference triangle 1/2
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            l1, l2 = a, (1 - a) * b
            out.append((np.array([1 - l1 - l2, l1, l2]), 2 * wa * wb * (1 - a)))
    return out                                 # weights sum to 1: multiply by the cell volume


def basis(deg, nodes, l, G):
    """values and gradients at barycentric point l of the Lagrange basis with the given barycentric nodes"""
    import numpy as np
    n, d = len(nodes), G.shape[1]
    if deg == 0:
        return np.ones(1), np.zeros((1, d))
    v, g = np.zeros(n), np.zeros((n, d))
    for k, b in enumerate(nodes):
        if deg == 1:
            i = int(np.argmax(b))
            v[k], g[k] = l[i], G[i]
            continue
        i = [j for j in range(len(b)) if abs(b[j] - 1) < 1e-6]
        if i:
            i = i[0]
            v[k], g[k] = l[i] * (2 * l[i] - 1), (4 * l[i] - 1) * G[i]
        else:
            i, j = [q for q in range(len(b)) if abs(b[q] - 0.5) < 1e-6]
            v[k], g[k] = 4 * l[i] * l[j], 4 * (l[i] * G[j] + l[j] * G[i])
    return v, g


class World:
    def __init__(self, case):
        import numpy as np, dolfin as df
        import dtlib
        from core import Discard
        from Dolfin_Module import Field_C
        import UserMesh_y_Fields_FE_XYZ_Module as FX, UserMesh_y_Fields_FE2D_Module as F2, UserMesh_y_Fields_Spherical1D_Module as FS
        kind = case['kind']
        self.radial = kind == 'sph'
        self.mesh, self.M = dtlib.make_mesh_M(case['mesh'], compute_dictionaries=False, compute_cpp_arrays=False, compute_tree=False)
        g = self.g = dtlib.Geo(self.mesh)
        dim = g.dim
        # boundary facets, as vertex sets
        fv = dtlib.facet_vertex_sets(self.mesh)
        ext = sorted(f for f, vs in fv.items() if len(g.facet_cells[vs]) == 1)
        lo, hi = g.X.min(0), g.X.max(0)
        if dim == 1 or case['shape'] == 'ends':
            on = lambda f, x: all(abs(g.X[v][0] - x) < 1e-9 * g.scale for v in fv[f])
            A, B = [f for f in ext if on(f, lo[0])], [f for f in ext if on(f, hi[0])]
        else:
            A = [f for i, f in enumerate(ext) if (case['sel'] >> (2 * i) % 16) & 3 == 1]
            B = [f for i, f in enumerate(ext) if (case['sel'] >> (2 * i) % 16) & 3 == 2]
        unset = self.radial and case['unset']
        if not B or not (A or unset):
            raise Discard()
        mk = self.mk = df.MeshFunction('size_t', self.mesh, dim - 1)
        mk.set_all(0)
        for f in A:
            mk[f] = case['marks'][0]
        for f in B:
            mk[f] = case['marks'][1]
        if case['other']:                      # facets carrying an unrelated mark
            for f in ext:
                if f not in A and f not in B:
                    mk[f] = 9
        cls = {'x': FX.UserPoissonSolve1D_C, 'circ': F2.UserPoissonSolve2DCirc_C, 'sph': FS.UserPoissonSolve1DS_C}[kind]
        names = ('xmin', 'xmax') if kind == 'x' else ('rmin', 'rmax')
        self.phi, self.S, self.E, self.rho, self.dir = [], [], [], [], []
        two = any(o[1] for o in case['ops'])
        for k in range(2 if two else 1):
            va, vb = case['vals'][2 * k], case['vals'][2 * k + 1]
            if unset:
                va = 'unset'
            phi = Field_C(self.M, 'CG', case['deg'], 'scalar')
            E = Field_C(self.M, case['E'][0], case['E'][1], 'vector') if case['E'] else None
            bcs = {names[0]: (case['marks'][0], va), names[1]: (case['marks'][1], vb)}
            s = cls(phi, case['lin'][0], case['lin'][1], mk, bcs, neg_electric_field=E)
            if case['reasm']:
                s.pde_has_constant_coeffs = False
            self.phi.append(phi)
            self.S.append(s)
            self.E.append(E)
            self.rho.append(Field_C(self.M, 'CG', case['deg'], 'scalar'))
            self.dir.append((A if va != 'unset' else [], va, B, vb))
        self.fv = fv

    def space(self, F, deg, comp=None):
        """cell dofs and barycentric nodes of the dofs in each cell"""
        import numpy as np
        import dtlib
        g = self.g
        cd = dtlib.cell_dofs(F, comp)
        x = F.function_space.tabulate_dof_coordinates().reshape(-1, g.dim)
        return cd, [[g.bary(c, x[k]) for k in cd[c]] for c in range(g.nc)], x


def run(case, ctx):
    import numpy as np
    from core import check, Discard
    import UserUnits_Module as U_M
    import dtlib
    W = World(case)
    g, deg, dim = W.g, case['deg'], W.g.dim
    if g.hmin.min() < 1e-6 * g.scale:
        raise Discard()
    eps = U_M.MyPlasmaUnits_C.epsilon_0
    check(abs(eps / 8.8541878e-12 - 1) < 1e-4, 'vacuum permittivity %r', eps)
    q = quad(dim)
    n = W.phi[0].function_len
    cd, nodes, xdof = W.space(W.phi[0], deg)
    K = np.zeros((n, n))
    mass1 = np.zeros((n, 3))                   # integrals of v, x v, y v
    for c in range(g.nc):
        G, vol = g.grads(c), g.volume(c)
        for l, w in q:
            p = l @ g.V[c]
            f = w * vol * (p[0] ** 2 if W.radial else 1.0)
            v, gr = basis(deg, nodes[c], l, G)
            K[np.ix_(cd[c], cd[c])] += eps * f * gr @ gr.T
            for j, m in enumerate([1.0] + list(p)):
                mass1[cd[c], j] += f * m * v
    Ka = np.abs(K)
    # dofs with prescribed values
    fixed = []
    for A, va, B, vb in W.dir:
        d = {}
        for fs, v in ((A, va), (B, vb)):
            for f in fs:
                vs = list(W.fv[f])
                for c in g.facet_cells[W.fv[f]]:
                    for k, b in zip(cd[c], nodes[c]):
                        if abs(sum(b[i] for i in range(dim + 1) if int(g.C[c][i]) in vs) - 1) < 1e-6:
                            d.setdefault(int(k), []).append(float(v))
        fixed.append(d)
    b = [np.zeros(n) for _ in W.S]
    nsolve = nz = 0

    def verify(k, what):
        s = W.S[k]
        u = dtlib.values(W.phi[k])
        uv = W.phi[k].function_values.get_local()
        check(np.array_equal(u, uv), 'function_values of the potential differ from its function')
        for i, vs in fixed[k].items():
            check(any(abs(u[i] - v) <= 1e-9 * (1 + abs(v)) for v in vs), '%s: potential %r at boundary point %s, prescribed %r', what, u[i], xdof[i], vs)
        free = [i for i in range(n) if i not in fixed[k]]
        res = K @ u - b[k]
        scale = Ka @ np.abs(u) + np.abs(b[k])
        if free:
            # rounding in the dense part of the system spreads over neighbours: use the largest scale as a floor
            tol = 1e-8 * scale + 1e-11 * (scale[free].max() if len(free) else 0)
            i = max(free, key=lambda i: abs(res[i]) - tol[i])
            check(abs(res[i]) <= tol[i], '%s: the equation at %s is off by %r (terms of size %r, source there %r)', what, xdof[i], res[i], scale[i], b[k][i])
        E = W.E[k]
        if E is not None:
            e = dtlib.values(E)
            check(np.array_equal(e, E.function_values.get_local()), '%s: function_values of the electric field differ from its function', what)
            ty, ed = case['E']
            gmax = max(np.abs(basis(deg, nodes[c], l, g.grads(c))[1].T @ u[cd[c]]).max() for c in range(g.nc) for l in [np.full(dim + 1, 1.0 / (dim + 1))] + list(np.eye(dim + 1)))
            for comp in range(dim):
                ec, en, _ = W.space(E, ed, comp)
                lhs, sc = np.zeros(E.function_len), np.zeros(E.function_len)
                for c in range(g.nc):
                    G, vol = g.grads(c), g.volume(c)
                    for l, w in q:
                        ve, _ = basis(ed, en[c], l, G)
                        _, gr = basis(deg, nodes[c], l, G)
                        gp = gr[:, comp] @ u[cd[c]]
                        lhs[ec[c]] += w * vol * ve * (ve @ e[ec[c]] - gp)
                        sc[ec[c]] += w * vol * np.abs(ve) * (gmax + 1e-4 * np.abs(u).max() / g.hmin.min())
                i = int(np.argmax(np.abs(lhs) - 1e-8 * sc))
                check(abs(lhs[i]) <= 1e-8 * sc[i] + 1e-300, '%s: -E is not the gradient of the potential (component %d, defect %r of %r)', what, comp, lhs[i], sc[i])

    def finish(k, what):
        nonlocal nsolve, nz
        others = [(dtlib.values(W.phi[j]), dtlib.values(W.E[j]) if W.E[j] is not None else None) for j in range(len(W.S)) if j != k]
        yield
        for j, (u, e) in zip([j for j in range(len(W.S)) if j != k], others):
            check(np.array_equal(u, dtlib.values(W.phi[j])) and (e is None or np.array_equal(e, dtlib.values(W.E[j]))), '%s changed the fields of another solver', what)
        verify(k, what)
        nsolve += 1
        nz += bool(np.any(b[k]))

    for op, k in case['ops'] + [[['again'], 0]]:
        s, F = W.S[k], W.rho[k]
        if op[0] == 'solve':
            ch, fac = op[1], op[2]
            rs = np.random.RandomState(ch['seed'])
            if ch['k'] != 'keep':
                v = rs.uniform(-1, 1, n) * ch['mag']
                if ch['k'] == 'sparse':
                    v *= rs.uniform(size=n) < 0.3
                elif ch['k'] == 'one':
                    v = np.where(np.arange(n) == rs.randint(n), ch['mag'], 0.0)
                elif ch['k'] == 'zero':
                    v = np.zeros(n)
                F.function_values[:] = v
            v = dtlib.values(F)
            b[k] = v * (1.0 if fac is None else fac)
            it = finish(k, 'solve with charge, factor %s' % fac)
            next(it)
            if fac is None:
                s.solve_for_phi(assembled_charge=F)
            else:
                s.solve_for_phi(assembled_charge=F, assembled_charge_factor=fac)
            list(it)
            a = dtlib.values(F)
            t = 1e-12 * (np.abs(v).max() + np.abs(b[k]).max())
            check(np.abs(a - b[k]).max() <= t or np.abs(a - v).max() <= t, 'the solve altered the charge it was given: %s, was %s', a, v)
        elif op[0] == 'again':
            u0 = dtlib.values(W.phi[k])
            it = finish(k, 'solve without charge')
            next(it)
            s.solve_for_phi()
            list(it)
        else:
            if op[0] == 'const':
                s.assemble_source_expression(op[1])
                b[k] = mass1[:, 0] * float(op[1] or 0.0)
            else:
                e, co = EXPR[dim][op[1]]
                s.assemble_source_expression(e)
                b[k] = mass1 @ np.array(co)
            ctx.label(op[0])
    ctx.label(case['kind'] + str(deg))
    if case['E']:
        ctx.label('E:%s%d' % tuple(case['E']))
    ctx.nontrivial(nsolve >= 2 and nz >= 1)

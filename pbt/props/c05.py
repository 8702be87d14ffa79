"""C05: each live particle carries the index of the cell it is in, and the number of facets it crossed."""
RULE = ('a case is a simulation (Python, older Python or C++ mover; 1-3D Cartesian or radial; 1-3 species) of 1-4 steps with displacements from 1/20 to 8 cell sizes, '
        'or a set of particles placed at generic points, vertices, edge and facet midpoints whose cells are looked up, or a run with absorbing walls whose particles go from such a point '
        'to another or by multiples of the cell size. The stored cell must contain the position; cell and crossing count must equal those of an independent facet-by-facet trace. '
        'Runs on such aligned points must end normally, with the particles whose straight path leads out of the domain absorbed and the others kept. '
        'Non-trivial: some survivor crossed a facet in a step, or some point lies on a facet.')
ASSUMPTIONS = ['paths within 1e-7 cell sizes of a vertex/edge, or ending that close to a facet, are not judged (case discarded); in the aligned runs the cell is judged, not the crossing count, and end points within 1e-9 of the outer boundary may be absorbed or kept',
               'aligned runs use double precision and absorbing walls; those that end in the abort recorded in known_findings.json are counted and not judged']
CASES = {'quick': 5000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL), st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], impl=t[1]))
    cpp = dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,)).map(lambda s: dict(s, impl='cpp'))
    look = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, maxsteps=1), st.sampled_from(['look-py', 'look-cpp']),
                     st.lists(st.integers(0, 6), min_size=14, max_size=14)).map(lambda t: dict(t[0], impl=t[1], where=t[2]))
    tie = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, reflect=False, maxparts=8, inner=False), st.integers(0, 10 ** 6), st.sampled_from(['tie-py', 'tie-py-old'])).map(
        lambda t: dict(t[0], impl=t[2], tseed=t[1]))
    tiec = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), reflect=False, maxparts=8, inner=False), st.integers(0, 10 ** 6)).map(lambda t: dict(t[0], impl='tie-cpp', tseed=t[1]))
    return st.one_of(py, py, cpp, cpp, look, tie, tiec)


def known_match(entry, case, r):
    """the recorded finding: an aligned path on which the mover aborts because it finds the facet it has just crossed again"""
    return case['impl'].startswith('tie') and entry['call_site'] in r.get('msg', '')


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import numpy as np
    from core import check
    import simlib
    if case['impl'].startswith('look'):
        return look(case, ctx)
    if case['impl'].startswith('tie'):
        return tie(case, ctx)
    S = simlib.Sim(case, case['impl'] == 'cpp')
    eps = 1e-9 * S.h + 1e-13 * S.g.scale
    for sn in S.P.species_names:
        for r in S.state(sn):
            check(0 <= r['cell_index'] < S.g.nc and S.g.depth(int(r['cell_index']), S.vec(r)) > -eps, 'after initial look-up, %s particle %d at %s has cell %d', sn, r['unique_ID'], S.vec(r), r['cell_index'])
    nt = False
    for step in range(case['nsteps']):
        for sn, r, p, a in S.step(old=case['impl'] == 'py-old'):
            if a is None:
                continue
            who = 'step %d, %s particle %d' % (step + 1, sn, r['unique_ID'])
            c = int(a['cell_index'])
            check(0 <= c < S.g.nc, '%s: cell index %d of %d cells', who, c, S.g.nc)
            dep = S.g.depth(c, S.vec(a))
            check(dep > -S.tol(r, p), '%s at %s is tagged with cell %d, which it is outside of by %g', who, S.vec(a), c, -dep)
            if p['alive']:
                check(c == p['cell'], '%s: path from cell %d leads to cell %d, tagged with %d', who, r['cell_index'], p['cell'], c)
                check(int(a['crossings']) == p['crossings'], '%s: %d facets crossed, recorded %d', who, p['crossings'], a['crossings'])
                nt = nt or p['crossings'] > 0
    ctx.label(case['impl'], S.coord)
    ctx.nontrivial(nt)


def look(case, ctx):
    import numpy as np
    from core import check
    import simlib

    eps0 = 1e-6

    class At(simlib.Sim):
        def record(self, p, i, uid):
            r = list(simlib.Sim.record(self, p, i, uid))
            k = case['where'][i % len(case['where'])]
            c, d = p['c'] % self.g.nc, self.dim
            V = self.g.V[c]
            if k < 3:
                n = [1, 2, min(3, d)][k]
                sel = [(p['c'] + j) % (d + 1) for j in range(n)]
                x = V[sel].mean(0)
                lo, hi = self.g.X.min(0), self.g.X.max(0)
                box = not (case['mesh'].get('rot') or case['mesh'].get('hole'))
                if n > 1 and not (box and np.all(x > lo + eps0 * self.h) and np.all(x < hi - eps0 * self.h)):
                    x = V[sel[0]]      # a rounded midpoint of an outer facet may lie outside the mesh
                r[:d] = r[self.pdim:self.pdim + d] = [float(v) for v in x]
                self.special = True
            r[-3] = (uid * 5 + case['where'][0]) % (self.g.nc + 1) - 1       # whatever cell was listed
            return tuple(r)
    At.special = False
    import dtgen
    if case['impl'] == 'look-cpp' and tuple(case['kind']) not in dtgen.CPP_ALL:
        case = dict(case, impl='look-py')
    S = At(case, case['impl'] == 'look-cpp')
    eps = 1e-9 * S.h + 1e-13 * S.g.scale
    for sn in S.P.species_names:
        for r in S.state(sn):
            c = int(r['cell_index'])
            check(0 <= c < S.g.nc and S.g.depth(c, S.vec(r)) > -eps, '%s particle %d at %s was given cell %d', sn, r['unique_ID'], S.vec(r), c)
    ctx.label(case['impl'], S.coord)
    ctx.nontrivial(S.special)


def tie(case, ctx):
    """Particles that start and end on vertices, edges and facets."""
    import random
    import numpy as np
    from core import check
    import simlib

    class Tie(simlib.Sim):
        def record(self, p, i, uid):
            r = list(simlib.Sim.record(self, p, i, uid))
            d, V = self.dim, self.g.V[p['c'] % self.g.nc]
            rs = random.Random(uid * 7919 + case['tseed'])

            def point(V):
                return V[rs.sample(range(d + 1), rs.choice([1, 2, d + 1]))].mean(0)
            x = point(V)
            lo, hi = self.g.X.min(0), self.g.X.max(0)
            if rs.random() < 0.5:
                dx = np.array([rs.choice([-2, -1, -.5, 0, .25, .5, 1, 2]) for _ in range(d)]) * (hi - lo) / np.array(case['mesh']['n'])
            else:
                dx = (point(self.g.V[rs.randrange(self.g.nc)]) - x) * rs.choice([1, 1, 0.5, 2, 1 / 3.0])
            if any(x[k] == v or abs(x[k] - v) < 1e-9 * (hi - lo)[k] for k in range(d) for v in (lo[k], hi[k])) and not any((self.g.X[int(j)] == x).all() for j in range(len(self.g.X))):
                x = V.mean(0)          # a rounded midpoint of an outer facet may lie outside the mesh
            n = self.pdim
            r[:d] = r[n:n + d] = [float(v) for v in x]
            r[2 * n:2 * n + d] = [float(v) for v in dx / self.dt]
            return tuple(r)
    spec = dict(case, bnd=['wall'] * 6, mesh=dict(case['mesh'], rot=0.0, hole=[]))
    if spec.get('field'):
        spec['field'] = dict(spec['field'], esc=0.0)
    S = Tie(spec, case['impl'] == 'tie-cpp')
    lo, hi = S.g.X.min(0), S.g.X.max(0)
    nt = False
    for step in range(case['nsteps']):
        before = {sn: S.state(sn) for sn in S.P.species_names}
        S.begin()
        S.advance(old=case['impl'] == 'tie-py-old')
        for sn in before:
            after = {int(r['unique_ID']): r for r in S.state(sn)}
            for r in before[sn]:
                who = 'aligned run, step %d, %s particle %d' % (step + 1, sn, r['unique_ID'])
                dx = S.vec(r, 'u%s')[:S.dim] * S.dt
                x1 = S.vec(r)[:S.dim] + dx
                eps = 1e-9 * (S.h + float(np.linalg.norm(dx))) + 1e-12 * S.g.scale
                m = min((x1 - lo).min(), (hi - x1).min())
                a = after.get(int(r['unique_ID']))
                check(a is not None or m < eps, '%s: from %s by %s ends %g inside the domain but is gone', who, S.vec(r), dx, m)
                check(a is None or m > -eps, '%s: from %s by %s ends %g outside the domain but is still there', who, S.vec(r), dx, -m)
                if a is not None:
                    c = int(a['cell_index'])
                    check(0 <= c < S.g.nc and S.g.depth(c, S.vec(a)) > -eps, '%s: from %s by %s is at %s, tagged with cell %d', who, S.vec(r), dx, S.vec(a), c)
                    nt = True
    ctx.label(case['impl'], S.coord)
    ctx.nontrivial(nt)

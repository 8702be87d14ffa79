"""C06: boundary actions reach exactly the particles that cross that boundary."""
RULE = ('a case is a simulation (Python, older Python or C++ mover; 1-3D or radial; 1-3 species) of 1-4 steps. For Python movers the domain sides and some interior '
        'facets carry 1-4 generated boundary names with arbitrary integer marks, and any subset of the action functions (species at boundary, boundary default, global default), each '
        'absorbing, reflecting or passing, is supplied (interior facets: absorbing or passing); each call is logged and compared with the hits of an independent facet-by-facet trace. For C++ movers, and some Python runs, the '
        'actions that come with the repository are used and their effect is compared; other cases call one of its Python action functions on a generated record. Non-trivial: at least one hit, and (generated actions) two levels of action in use or (the repository\'s) both kinds of action taken.')
ASSUMPTIONS = ['a path within 1e-7 cell sizes of a vertex/edge is not judged (case discarded)', 'reflection is defined only at the outer boundary', 'actions on a particle already absorbed at an interior facet are not judged']
CASES = {'quick': 5000, 'thorough': 24000}
NAMES = ['rmin', 'wall', 'xmax', 'film']


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    act = st.sampled_from(['absorb', 'reflect'])
    oact = st.sampled_from([None, 'absorb', 'reflect'])
    bc = st.fixed_dictionaries(dict(
        glob=act, nodef=st.sampled_from([False, False, False, True]), at=st.lists(oact, min_size=3, max_size=3), sp=st.lists(st.lists(oact, min_size=3, max_size=3), min_size=3, max_size=3),
        sides=st.lists(st.integers(0, 2), min_size=6, max_size=6), tags=st.permutations([1, 2, 3, 4, 7, 11]),
        film=st.integers(0, 5), fseed=st.integers(0, 10 ** 6), filmfn=st.integers(0, 2), filmact=st.lists(st.sampled_from(['pass', 'pass', 'absorb']), min_size=2, max_size=2)))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, inner=False), bc, st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], bc=t[1], impl=t[2]))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,)), st.permutations([1, 2, 5])).map(lambda t: dict(t[0], tags=t[1], impl='cpp'))
    own = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL), st.permutations([1, 2, 5]), st.sampled_from(['own', 'own', 'own-old'])).map(lambda t: dict(t[0], tags=t[1], impl=t[2]))
    f = st.floats(-1, 1).map(lambda x: round(x, 3))
    fn = st.fixed_dictionaries(dict(impl=st.just('fn'), mod=st.sampled_from(sorted(OWN)), k=st.integers(0, 20), scale=st.sampled_from([1.0, 1e-9, 1e9]),
                                    x=st.lists(f, min_size=3, max_size=3), dx=st.lists(f, min_size=3, max_size=3), u=st.lists(f, min_size=3, max_size=3),
                                    n=st.lists(f, min_size=3, max_size=3).filter(lambda v: abs(v[0]) > 0.01), frac=st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1)),
                                    flags=st.sampled_from([0, 2, 4, 6, 2 ** 20]), f32=st.booleans()))
    pick = st.integers(0, 15)
    return pick.flatmap(lambda i: py if i < 9 else cpp if i < 12 else own if i < 15 else fn)


def preload():
    import simlib
    simlib.preload()
    import UserParticles_3D


# the boundary functions the repository ships in Python, and what they say they do
OWN = {
    'UserParticles_1D': (['x', 'r'], dict(default_bc='absorb', default_bc_at_xmin='absorb', bc_at_xmin_for_neutral_H='absorb', default_bc_at_rmin='reflect', default_bc_at_rmax='absorb', bc_at_rmin_for_neutral_H='absorb')),
    'UserParticles_2D_e': (['xy', 'xy', 'xyz', 'x'], dict(default_bc='absorb', default_bc_at_rmin='absorb', bc_at_rmin_for_test_electrons='reflect')),
    'UserParticles_3D': (['xyz'], dict(default_bc_at_xmin='absorb', default_bc_at_ymin='absorb', bc_at_xmin_for_neutral_H='absorb'))}


def run_fn(case, ctx):
    """one call of a boundary function of the repository on a generated record"""
    import importlib, inspect
    import numpy as np
    from core import check
    coords, table = OWN[case['mod']]
    nm = list(coords[case['k'] % len(coords)])
    d = len(nm)
    name = sorted(table)[case['k'] % len(table)]
    C = importlib.import_module(case['mod']).UserParticleBoundaryFunctions_C
    ft = np.float32 if case['f32'] else np.float64
    dx = np.array(case['dx'][:d], ft) * ft(case['scale'])
    obj = C(nm, dx) if case['mod'] != 'UserParticles_3D' else C()
    n = np.array(case['n'][:d])
    n = n / np.linalg.norm(n)
    rec = np.zeros(1, dtype=[(k, ft) for k in nm + [k + '0' for k in nm] + ['u' + k for k in nm] + ['weight']] + [(k, np.int32) for k in ('bitflags', 'cell_index', 'unique_ID', 'crossings')])
    p = rec[0]
    for i, k in enumerate(nm):
        p[k + '0'] = case['x'][i] * case['scale']
        p[k] = p[k + '0'] + (1 - case['frac']) * dx[i]
        p['u' + k] = case['u'][i] * 1e5
    p['weight'], p['bitflags'], p['cell_index'], p['unique_ID'], p['crossings'] = 2.5, case['flags'], 3, 77, 1
    old = rec.copy()[0]
    dx0, n0 = dx.copy(), n.copy()
    getattr(obj, name)(p, name.split('_for_')[-1] if '_for_' in name else 'other', 5, dx_fraction=case['frac'], facet_normal=n)
    check(bool((dx == dx0).all() and (n == n0).all()), '%s.%s changed the move vector or the normal it was given', case['mod'], name)
    if table[name] == 'absorb':
        check(int(p['bitflags']) == int(old['bitflags']) | 1, '%s.%s: flags %d became %d', case['mod'], name, old['bitflags'], p['bitflags'])
        same = [k for k in rec.dtype.names if k != 'bitflags']
    else:
        eps = 1e-5 if case['f32'] else 1e-12
        u0, u = (np.array([r['u' + k] for k in nm], float) for r in (old, p))
        x0, x = (np.array([r[k] for k in nm], float) for r in (old, p))
        out = (1 - case['frac']) * dx.astype(float)
        wu, wx = u0 - 2 * (n @ u0) * n, x0 - 2 * (n @ out) * n
        check(np.abs(u - wu).max() <= eps * 4e5, '%s.%s: velocity %s became %s at normal %s, expected %s', case['mod'], name, u0, u, n, wu)
        check(np.abs(x - wx).max() <= eps * 8 * case['scale'], '%s.%s: position %s became %s, expected %s', case['mod'], name, x0, x, wx)
        same = [k for k in rec.dtype.names if k not in nm and not (k[0] == 'u' and k[1:] in nm)]
    check(all(p[k] == old[k] for k in same), '%s.%s (%s) changed %s', case['mod'], name, table[name], [k for k in same if p[k] != old[k]])
    ctx.label('fn', table[name])
    ctx.nontrivial(True)


def level_name(bc, species, b, sn):
    """name and action of the most specific function supplied for boundary b and species sn"""
    if b == 'film':
        # interior facets: passing or absorbing functions, supplied at one of the two boundary levels (never global, which may reflect)
        fa = bc.get('filmact', ['pass', 'pass'])
        if bc['filmfn'] == 1 or (bc['filmfn'] == 2 and sn == species[0]):
            return 'bc_at_film_for_' + sn, fa[1]
        return 'default_bc_at_film', fa[0]
    i, k = NAMES.index(b), species.index(sn)
    if bc['sp'][i][k]:
        return 'bc_at_%s_for_%s' % (b, sn), bc['sp'][i][k]
    if bc['at'][i]:
        return 'default_bc_at_' + b, bc['at'][i]
    if bc.get('nodef'):
        return 'default_bc_at_' + b, bc['glob']
    return 'default_bc', bc['glob']


def make_fns(case, S, species):
    """a user class with the generated functions; each logs its call and acts"""
    bc = case['bc']
    P, nm, d = S.P, S.names, S.pdim

    class Fns(object):
        pass
    f = Fns()

    def add(name, act):
        def g(p, speciesName, facetIndex, dx_fraction=None, facet_normal=None):
            import numpy as np
            import dtlib
            n = dtlib.pad(np.array(facet_normal, float).ravel()[:d], d)
            S.log.append(dict(fn=name, sp=speciesName, facet=int(facetIndex), frac=float(dx_fraction), normal=n.copy(),
                              x0=np.array([p[k + '0'] for k in nm]), x=np.array([p[k] for k in nm]), u=np.array([p['u' + k] for k in nm]), uid=int(p['unique_ID']), dx=np.array(P.dx, float).copy()))
            if act == 'absorb':
                p['bitflags'] = p['bitflags'] | 1
            elif act == 'reflect':
                dxo = (1.0 - dx_fraction) * np.array(P.dx, float)
                u = np.array([p['u' + k] for k in nm])
                for i, k in enumerate(nm):
                    p[k] -= 2.0 * (n @ dxo) * n[i]
                    p['u' + k] -= 2.0 * (n @ u) * n[i]
        setattr(f, name, g)
    if not bc.get('nodef'):
        add('default_bc', bc['glob'])
    for i, b in enumerate(NAMES[:3]):
        if bc['at'][i] or bc.get('nodef'):
            add('default_bc_at_' + b, bc['at'][i] or bc['glob'])
        for k, sn in enumerate(species):
            if bc['sp'][i][k]:
                add('bc_at_%s_for_%s' % (b, sn), bc['sp'][i][k])
    fa = bc.get('filmact', ['pass', 'pass'])
    add('default_bc_at_film', fa[0])
    for k, sn in enumerate(species):
        if bc['filmfn'] == 1 or (bc['filmfn'] == 2 and k == 0):
            add('bc_at_film_for_' + sn, fa[1])
    return f


def marks(case, S):
    import random
    bc = case['bc']
    tags = dict(zip(NAMES, bc['tags']))
    out, _ = S.side_markers([NAMES[i] for i in bc['sides']])
    inv = {v: k for k, v in _.items()}
    out = {f: tags[inv[t]] for f, t in out.items()}
    used = set(out.values())
    rng = random.Random(bc['fseed'])
    inner = sorted(S.key2facet[k] for k, c in S.g.facet_cells.items() if len(c) == 2)
    for f in rng.sample(inner, min(bc['film'], len(inner))):
        out[f] = tags['film']
        used.add(tags['film'])
    return out, {b: t for b, t in tags.items() if t in used or b == 'xmax'}


def run(case, ctx):
    import numpy as np
    from core import check
    import simlib
    if case['impl'] == 'fn':
        return run_fn(case, ctx)
    species = [s['name'] for s in case['species']]
    cpp = case['impl'] == 'cpp' or case['impl'].startswith('own')   # the actions are the repository's own
    if cpp:
        def cmarks(S):
            out, bd = S.side_markers(case['bnd'])
            tag = dict(zip(sorted(bd), case['tags']))
            inv = {v: k for k, v in bd.items()}
            return {f: tag[inv[t]] for f, t in out.items()}, {b: tag[b] for b in bd}
        S = simlib.Sim(case, case['impl'] == 'cpp', markers=cmarks)
    else:
        S = simlib.Sim(case, False, markers=lambda S: marks(case, S), user_bcs=lambda S: make_fns(case, S, species),
                       actions=lambda b, sn: level_name(case['bc'], species, b, sn)[1])
    nhit, fns, acts = 0, set(), set()
    for step in range(case['nsteps']):
        open_ = 0
        res = S.step(old=case['impl'].endswith('-old'))
        for sn, r, p, a in res:
            uid = int(r['unique_ID'])
            who = 'step %d, %s particle %d' % (step + 1, sn, uid)
            tol = S.tol(r, p) * (1 + len(p['hits']))
            nhit += len(p['hits'])
            acts |= set(h['act'] for h in p['hits'])
            if not cpp:
                calls = [c for c in S.log if c['uid'] == uid]
                want = [(level_name(case['bc'], species, h['name'], sn)[0], h['facet']) for h in p['hits']]
                # what happens to a particle on its way from an absorbing interior facet is left open
                dead = [j for j, h in enumerate(p['hits']) if h['act'] == 'absorb']
                got = [(c['fn'], c['facet']) for c in calls]
                if dead and dead[0] + 1 <= len(got) < len(want):
                    want = want[:len(got)]
                open_ += len(p['hits']) - len(want)
                check(got == want, '%s: actions called (function, facet) %s, expected %s', who, [(c['fn'], c['facet']) for c in calls], want)
                for c, h in zip(calls, p['hits']):
                    fns.add(c['fn'].split('_for_')[0] if '_for_' in c['fn'] else c['fn'][:13])
                    check(c['sp'] == sn, '%s: action %s was given species %s', who, c['fn'], c['sp'])
                    check(np.abs(c['normal'] - h['normal']).max() < 1e-8, '%s: action %s got normal %s of facet %d, outward normal is %s', who, c['fn'], c['normal'], h['facet'], h['normal'])
                    check(np.abs(c['x0'] - h['x']).max() < tol, '%s: action %s sees crossing point %s, expected %s', who, c['fn'], c['x0'], h['x'])
                    check(np.abs(c['x'] - h['xend']).max() < tol, '%s: action %s sees path end %s, expected %s', who, c['fn'], c['x'], h['xend'])
                    check(np.abs(c['x0'] + (1 - c['frac']) * c['dx'] - h['xend']).max() < tol, '%s: action %s: fraction %r and move vector %s do not lead from %s to %s', who, c['fn'], c['frac'], c['dx'], c['x0'], h['xend'])
            if not p['alive']:
                check(a is None, '%s was absorbed at %s but is still stored', who, [h['name'] for h in p['hits']])
                continue
            check(a is not None, '%s is gone, but met %s', who, [(h['name'], h['act']) for h in p['hits']] or 'no boundary')
            if p['hits'] or not cpp:
                u, x = S.vec(a, 'u%s'), S.vec(a)
                sp0 = np.linalg.norm(p['u1'])
                check(np.abs(u - p['u']).max() <= 1e-10 * sp0, '%s: velocity %s after %s, expected %s', who, u, [(h['name'], h['act']) for h in p['hits']], p['u'])
                check(abs(np.linalg.norm(u) - sp0) <= 1e-10 * sp0, '%s: speed %r became %r', who, sp0, np.linalg.norm(u))
                check(np.abs(x - p['x']).max() <= tol, '%s: at %s after %s, expected %s', who, x, [(h['name'], h['act']) for h in p['hits']], p['x'])
                c = int(a['cell_index'])
                check(0 <= c < S.g.nc and S.g.depth(c, x) > -tol, '%s: outside its cell %d after %s', who, c, [(h['name'], h['act']) for h in p['hits']])
        if not cpp:
            check(len(S.log) + open_ == sum(len(p['hits']) for _, _, p, _ in res), 'step %d: %d actions called, %d hits', step + 1, len(S.log), sum(len(p['hits']) for _, _, p, _ in res))
    ctx.label(case['impl'], S.coord, *['act-' + str(a) for a in acts])
    ctx.nontrivial(nhit > 0 and (len(acts) > 1 if cpp else len(fns) > 1))

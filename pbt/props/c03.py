"""C03: survivors, order and identity after a mover step."""
RULE = ('a case is a simulation (Python or C++ movers; 1-3D Cartesian or radial; charged, neutral or both, 1-3 species, up to 14 particles each, '
        'segment length 1-7, 100 or 130) of 1-4 steps, or a sequence of steps in uniform fields with particles marked deleted. After every step the '
        'stored sequence of (ID, weight, trajectory flag) is compared with the survivors predicted from the state before the step, and reported '
        'counts with the stored records. Non-trivial: some particle absorbed and some survived, and more than one storage segment in use.')
ASSUMPTIONS = ['paths within 1e-7 cell sizes of a vertex/edge, or ending that close to a facet, are not judged (case discarded)']
CASES = {'quick': 6000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL, traj=True), st.sampled_from(['py', 'py', 'py-old'])).map(lambda t: dict(t[0], impl=t[1]))
    cpp = dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,), traj=True).map(lambda s: dict(s, impl='cpp'))
    uni = st.fixed_dictionaries(dict(
        impl=st.sampled_from(['uniform-py', 'uniform-cpp']), L=st.sampled_from([1, 2, 3, 4, 5, 7]),
        n=st.integers(0, 22), steps=st.lists(st.integers(0, 2 ** 22 - 1), min_size=1, max_size=4),
        add=st.integers(0, 3), seed=st.integers(0, 10 ** 6), qm=st.integers(0, 3), dt=st.sampled_from([1.0, 0.01])))
    return st.one_of(py, cpp, uni)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    if case['impl'].startswith('uniform'):
        return uniform(case, ctx)
    import numpy as np
    from core import check
    import simlib
    S = simlib.Sim(case, case['impl'] == 'cpp')
    P = S.P
    nt = False
    for sn in P.species_names:
        st = S.state(sn)
        ids, listed = [int(v) for v in st['unique_ID']], [t[-2] for t in S.lists[sn]]
        check(ids[len(ids) - len(listed):] == listed and len(set(ids)) == len(ids), 'initial IDs of %s: %s, listed %s', sn, ids, listed)
        check(len(ids) == len(listed) or S.P.initial_particles_dict.get('over_mesh', [{}])[0].get('species_name') == sn, '%d initial %s, %d listed', len(ids), sn, len(listed))
    for step in range(case['nsteps']):
        before = {sn: S.state(sn) for sn in P.species_names}
        exp = {}
        for sn in P.species_names:
            exp[sn] = [r for r in before[sn] if S.predict(sn, r)['alive']]
        S.begin()
        S.advance(old=case['impl'] == 'py-old')
        total = 0
        for sn in P.species_names:
            st = S.state(sn)
            ids = [int(v) for v in st['unique_ID']]
            eids = [int(r['unique_ID']) for r in exp[sn]]
            check(ids == eids, 'step %d, %s: stored IDs %s, expected survivors %s (of %s)', step + 1, sn, ids, eids, [int(r['unique_ID']) for r in before[sn]])
            for r, e in zip(st, exp[sn]):
                check(r['weight'] == e['weight'], 'step %d, %s: particle %d has weight %r, had %r', step + 1, sn, r['unique_ID'], r['weight'], e['weight'])
                check(r['bitflags'] == e['bitflags'], 'step %d, %s: particle %d has flags %s, had %s', step + 1, sn, r['unique_ID'], bin(r['bitflags']), bin(e['bitflags']))
            check(P.get_species_particle_count(sn) == len(ids), 'step %d: count of %s reported as %s, stored %d', step + 1, sn, P.get_species_particle_count(sn), len(ids))
            total += len(ids)
            if 0 < len(ids) < len(before[sn]) and len(before[sn]) > S.L:
                nt = True
        check(P.get_total_particle_count() == total, 'step %d: total count reported as %s, stored %d', step + 1, P.get_total_particle_count(), total)
    ctx.label(case['impl'], S.coord)
    ctx.nontrivial(nt)


def uniform(case, ctx):
    """Mover in uniform fields: no mesh; particles marked for deletion disappear at the next step (Python; the C++ mover deletes nothing)."""
    from core import check
    import unilib
    cpp = case['impl'] == 'uniform-cpp'
    U = unilib.Uni(case, cpp)
    nt = False
    nid = 0
    for k, m in enumerate(case['steps']):
        for _ in range(case['n'] if k == 0 else case['add']):
            U.add(nid)
            nid += 1
        if not cpp:
            U.mark(m)
        before = U.state()
        exp = [r for r in before if not (r['bitflags'] & 1)]
        U.advance()
        st = U.state()
        ids, eids = [int(v) for v in st['unique_ID']], [int(r['unique_ID']) for r in exp]
        check(ids == eids, 'uniform-field step %d: stored IDs %s, expected %s', k + 1, ids, eids)
        for r, e in zip(st, exp):
            for f in ('weight', 'bitflags', 'cell_index', 'crossings'):
                check(r[f] == e[f], 'uniform-field step %d: %s of particle %d is %r, was %r', k + 1, f, r['unique_ID'], r[f], e[f])
        check(U.P.get_species_particle_count(U.sn) == len(eids), 'uniform-field step %d: count reported as %s, expected %d', k + 1, U.P.get_species_particle_count(U.sn), len(eids))
        check(U.P.get_total_particle_count() == len(eids), 'uniform-field step %d: total count reported as %s, expected %d', k + 1, U.P.get_total_particle_count(), len(eids))
        nt = nt or (len(exp) > case['L'] and (cpp or len(exp) < len(before)))
    ctx.label(case['impl'])
    ctx.nontrivial(nt)

"""C14: diagnostics and histories equal the quantities recomputed from the stored particles."""
RULE = ('a case is a simulation (Python or C++ store; 1-3D Cartesian or radial; 1-3 species, up to 14 particles each, segment length 1-7, 100 or 130) of 1-6 steps with '
        'histories of a drawn set of quantities and limit on the points. After every step the counts, physical numbers and kinetic energies are compared with those '
        'recomputed from the stored records and, at the recorded steps, the rows of the history with them. Non-trivial: some particles have been absorbed, more '
        'than one segment in use, and at least two rows recorded.')
ASSUMPTIONS = ['histories are stored in single precision (relative error 1e-6 accepted)', 'the caller records at steps 0, skip, 2 skip, ... as the user programs do']
CASES = {'quick': 6000, 'thorough': 24000}


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    h = st.fixed_dictionaries(dict(max_points=st.sampled_from([None, None, 1, 2, 3, 5, 50]), hists=st.sampled_from([['count'], ['KE'], ['count', 'KE'], ['KE', 'count'], []]),
                                   nsteps=st.integers(1, 6)))
    py = st.tuples(dtgen.sim_strategy(dtgen.PY_ALL), h).map(lambda t: dict(t[0], h=t[1], nsteps=t[1]['nsteps'], impl='py'))
    cpp = st.tuples(dtgen.sim_strategy(dtgen.CPP_ALL, els=(0,)), h).map(lambda t: dict(t[0], h=t[1], nsteps=t[1]['nsteps'], impl='cpp'))
    return st.one_of(py, cpp)


def preload():
    import simlib
    simlib.preload()


def run(case, ctx):
    import numpy as np
    from core import check
    import simlib
    from RecordedData_Module import ParticleHistoryInput_C, ParticleHistory_C
    S = simlib.Sim(case, case['impl'] == 'cpp')
    P, h = S.P, case['h']
    names = list(P.species_names)
    hi = ParticleHistoryInput_C()
    hi.max_points = h['max_points']
    hi.scalar_histories = list(h['hists'])
    H = P.histories = ParticleHistory_C(hi, S.ctrl, P.history_function_dict, P.species_names)
    n = case['nsteps']
    check(isinstance(H.skip, int) and H.skip >= 1, 'history interval is %r', H.skip)
    if h['max_points'] is None:
        check(H.skip == 1, 'history interval is %d although no limit was asked for', H.skip)
    else:
        check(len(range(0, n + 1, H.skip)) <= h['max_points'], '%d steps at interval %d give %d points; at most %d asked for', n, H.skip, len(range(0, n + 1, H.skip)), h['max_points'])
        check(H.skip <= n / h['max_points'] + 1, '%d steps are recorded only every %d; %d points were asked for', n, H.skip, h['max_points'])
    rows = []
    nt = False
    start = {sn: len(S.lists[sn]) for sn in names}

    def close(a, b, tol):
        return abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-300

    def look(step):
        nonlocal nt
        row = dict(step=step, t=S.ctrl.time)
        tot = {}
        total = 0
        for sn in names:
            st = S.state(sn)
            cnt = len(st)
            num = float(sum(float(r['weight']) for r in st))
            ke = 0.5 * S.mass[sn] * float(sum(float(r['weight']) * float(S.vec(r, 'u%s') @ S.vec(r, 'u%s')) for r in st))
            c = P.get_species_particle_count(sn)
            check(c == cnt, 'step %d: %s has %d stored particles, count reported %s', step, sn, cnt, c)
            v = P.get_species_number(sn)
            check(close(v, num, 1e-10), 'step %d: number of physical %s reported %r, the stored weights sum to %r', step, sn, v, num)
            v = P.get_species_KE(sn)
            check(close(v, ke, 1e-10), 'step %d: kinetic energy of %s reported %r, the stored particles have %r', step, sn, v, ke)
            total += cnt
            for q, val in (('count', cnt), ('KE', ke)):
                if q in h['hists']:
                    row[sn + '_' + q] = val
                    row[sn + '_ppp_' + q] = val / max(num, 1)
                    row[q] = row.get(q, 0.0) + val
            if 0 < cnt < start[sn] and cnt > S.L:
                nt = True
        c = P.get_total_particle_count()
        check(c == total, 'step %d: %d particles stored, total count reported %s', step, total, c)
        if step % H.skip == 0:
            P.record_history_data(step, S.ctrl.time)
            rows.append(row)
        # looking at the particles does not change them
        check(P.get_total_particle_count() == total, 'step %d: recording histories changed the particle count', step)
    look(0)
    for step in range(n):
        S.begin()
        S.advance()
        look(S.ctrl.timeloop_count)
    A = H.data_array
    check(len(A) >= len(rows), 'history array has %d rows for %d recorded steps', len(A), len(rows))
    want = {'step', 't'} | set(k for r in rows for k in r)
    check(set(A.dtype.names) == want, 'history quantities %s, expected %s', sorted(A.dtype.names), sorted(want))
    for i, r in enumerate(rows):
        for k, v in r.items():
            check(close(float(A[k][i]), float(v), 1e-6) or abs(float(v)) < 1e-37 and abs(float(A[k][i])) < 2e-37, 'history row %d (step %d): %s is %r, expected %r', i, r['step'], k, float(A[k][i]), float(v))
    ctx.label(case['impl'], S.coord, 'max-%s' % h['max_points'], 'rows-%d' % len(rows), *h['hists'])
    ctx.nontrivial(nt and len(rows) >= 2)

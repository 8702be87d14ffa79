"""C02: the C++ segmented store (four particle types) against a plain list."""
RULE = ('a case is a particle type, a segment length 1..7 (sometimes larger) and a history of appends (tuple, list or 1-element record array), '
        'index reads/writes, partial and complete segment iterations, in/out rewrite passes with an arbitrary survivor subset, and count '
        'truncations; after every operation the store is compared with a plain Python list through every accessor. '
        'Non-trivial: the history fills more than one segment and contains a pass or truncation that drops at least one item.')
ASSUMPTIONS = ['passes follow the protocol of the movers: in segments read in order, survivors written in order, '
               'next out segment fetched only when the current one is full and another item is to be written']
CASES = {'quick': 10000, 'thorough': 60000}
TYPES = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r']


def strategy(tier):
    from hypothesis import strategies as st
    import sapmodel
    return sapmodel.strategy(tier, dict(ptype=st.sampled_from(TYPES)), ['tuple', 'list', 'record'])


def examples(tier):
    for t in TYPES:
        yield dict(L=3, ptype=t, ops=[['push', 3, 'tuple'], ['loop', 12], ['push', 1, 'tuple'], ['push', 4, 'list']])
        yield dict(L=3, ptype=t, ops=[['push', 5, 'list'], ['pass', [False], False], ['loop', 12], ['push', 4, 'record']])
        yield dict(L=100, ptype=t, ops=[['pushto', 1, 'tuple'], ['loop', 3], ['push', 2, 'record'], ['passkeep', 0]])


def preload():
    import numpy_types_solib, segmented_array_pair_solib


COORDS = dict(cartesian_x='x', cartesian_xy='xy', cartesian_xyz='xyz', spherical_r='r')


def make(case):
    import numpy as np
    import segmented_array_pair_solib as m
    sap = getattr(m, 'SegmentedArrayPair_' + case['ptype'])(case['L'])
    c = COORDS[case['ptype']]
    dt = np.dtype([(k, 'f8') for k in c] + [(k + '0', 'f8') for k in c] + [('u' + k, 'f8') for k in c] +
                  [('weight', 'f8'), ('bitflags', 'i4'), ('cell_index', 'i4'), ('unique_ID', 'i4'), ('crossings', 'i4')])
    return sap, dt, True


def run(case, ctx):
    import sapmodel
    ctx.label(case['ptype'])
    sapmodel.run_history(case, ctx, make)

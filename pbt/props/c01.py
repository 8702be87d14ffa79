"""C01: the Python segmented store against a plain list."""
RULE = ('a case is a history of appends (tuple or 1-element record array), index reads/writes, partial and complete '
        'segment iterations, in/out rewrite passes with an arbitrary survivor subset, and count truncations, over a '
        'segment length 1..7 (sometimes larger); after every operation the store is compared with a plain Python list. '
        'Non-trivial: the history fills more than one segment and contains a rewrite pass that drops at least one item.')
ASSUMPTIONS = ['passes follow the protocol of the movers: in segments read in order, survivors written in order, '
               'next out segment fetched only when the current one is full and another item is to be written']
CASES = {'quick': 10000, 'thorough': 60000}


def strategy(tier):
    from hypothesis import strategies as st
    import sapmodel
    return sapmodel.strategy(tier, dict(prec=st.sampled_from(['f8', 'f4'])), ['tuple', 'record'])


def examples(tier):
    yield dict(L=3, prec='f8', ops=[['push', 3, 'tuple'], ['loop', 12], ['push', 1, 'tuple'], ['push', 4, 'tuple']])
    yield dict(L=3, prec='f8', ops=[['push', 5, 'tuple'], ['pass', [False], False], ['loop', 12], ['push', 4, 'tuple']])
    yield dict(L=100, prec='f8', ops=[['pushto', 1, 'tuple'], ['loop', 3], ['push', 2, 'record'], ['passkeep', 0]])


def make(case):
    import numpy as np
    from SegmentedArrayPair_Module import SegmentedArrayPair_C
    dt = np.dtype([('x', case['prec']), ('ux', case['prec']), ('weight', case['prec']),
                   ('bitflags', 'i4'), ('cell_index', 'i4'), ('unique_ID', 'i4')])
    return SegmentedArrayPair_C(case['L'], dt), dt, False


def run(case, ctx):
    import sapmodel
    sapmodel.run_history(case, ctx, make)

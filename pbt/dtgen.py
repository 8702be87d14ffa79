"""Generators (driver side; Hypothesis only)."""


def mesh_strategy(dims=(1, 2, 3), small=False, long=False, free=True):
    """free: the mesh may also be rotated, lack some cells, and be numbered in any order"""
    from hypothesis import strategies as st

    def build(dim):
        mx = {1: 9, 2: 4, 3: 2}[dim] if not small else {1: 5, 2: 3, 3: 2}[dim]
        if long:
            mx = {1: 40, 2: 9, 3: 4}[dim]
        d = dict(dim=st.just(dim),
                 n=st.lists(st.integers(1, mx), min_size=dim, max_size=dim),
                 box=st.lists(st.tuples(st.sampled_from([0.0, -1.0, 2.5, -10.0, 0.3]),
                                        st.sampled_from([1.0, 0.7, 10.0, 0.01, 3.3])), min_size=dim, max_size=dim),
                 jit=st.sampled_from([0.0, 0.5, 1.0]), seed=st.integers(0, 10 ** 6),
                 grade=st.sampled_from([0.0, 0.0, 0.5, -0.5]))
        d['size'] = st.sampled_from([1.0] * 7 + [1e-7, 1e4])
        if dim == 2:
            d['diag'] = st.sampled_from(['right', 'left', 'crossed', 'right/left', 'left/right'])

        if free:
            d['free'] = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([0.0, 0.0, 30.0, 90.0, -52.0, 171.0]), st.one_of(st.just([]), st.lists(st.integers(0, 300), max_size=4)),
                                                       st.one_of(st.just(0), st.integers(1, 10 ** 6))))

        def fin(x):
            fr = x.pop('free', None)
            if fr is not None:
                x['rot'], x['hole'], x['perm'] = fr[0] if dim > 1 else 0.0, fr[1] if dim > 1 else [], fr[2]
            b = x.pop('box')
            # keep the aspect ratio and the offset moderate: use the size of the first direction, scaled
            s = b[0][1] * x.pop('size')
            x['lo'] = [v[0] * s for v in b]
            x['hi'] = [v[0] * s + s * (1.0 if k == 0 else [1.0, 0.6, 1.5][int(v[1] * 10) % 3]) for k, v in enumerate(b)]
            return x
        return st.fixed_dictionaries(d).map(fin)
    return st.sampled_from(list(dims)).flatmap(build)


def sim_strategy(kinds, maxparts=14, maxsteps=4, nspecies=(1, 2, 3), traj=False, radial_ok=True, els=(0, 0, 1), reflect=True, inner=True):
    """kinds: list of (coord, dynamics): e.g. ('xy','charged'). Returns a strategy of sim specs."""
    from hypothesis import strategies as st
    wt = st.sampled_from([1.0, 0.25, 3.0, 1e10, 7.5, 0.1, 1e-3, 1e-15])
    f1 = st.floats(-1.0, 1.0, width=32)

    def build(kind):
        coord, dyn = kind[:2]
        more = kind[2] if len(kind) > 2 else 0           # particle coordinates beyond those of the mesh
        dim = {'x': 1, 'r': 1, 'xy': 2, 'xyz': 3}[coord]
        part = st.fixed_dictionaries(dict(
            c=st.integers(0, 200), w=st.lists(st.floats(0.0, 1.0, width=32), min_size=4, max_size=4),
            v=st.lists(f1, min_size=3, max_size=3), s=st.sampled_from([1.0, 0.3, 3.0, 0.05, 8.0, 30.0, 1.0, 0.3, 3.0, 0.0]), wt=wt,
            fl=st.sampled_from([0, 0, 0, 0, 4, 64]),
            tr=st.booleans() if traj else st.just(False)))

        def sp(name):
            if dyn == 'both':
                neu = st.booleans()
            else:
                neu = st.just(dyn == 'neutral')
            # the length of the list is drawn first: lists drawn directly are nearly always short
            return st.fixed_dictionaries(dict(name=st.just(name), qm=st.integers(0, 3), neutral=neu,
                                              parts=st.integers(0, maxparts).flatmap(lambda n: st.lists(part, min_size=n, max_size=n))))
        names = ['test_electrons', 'ions', 'other']

        def spec(ns):
            m = st.one_of([mesh_strategy((dim,), small=True)] * 7 + [mesh_strategy((dim,), long=True)])
            if coord == 'r':
                def rad(x):
                    x = dict(x)
                    off = 0.5 * abs(x['lo'][0]) + 0.3 * (x['hi'][0] - x['lo'][0])
                    w = x['hi'][0] - x['lo'][0]
                    x['lo'], x['hi'], x['radial'] = [off], [off + w], True
                    return x
                m = m.map(rad)
                bnd = st.sampled_from([['rmin', 'wall'], ['wall', 'wall'], ['rmin', 'rmin']])
            else:
                bnd = st.lists(st.sampled_from(['rmin', 'wall'] if reflect else ['wall']), min_size=2 * dim, max_size=2 * dim)
            d = dict(mesh=m, dt=st.sampled_from([1.0, 0.037, 2.0e-9]), L=st.sampled_from([1, 2, 3, 4, 5, 7, 100, 130]),
                     nsteps=st.integers(1, maxsteps), bnd=bnd, species=st.permutations(names).flatmap(lambda nm: st.tuples(*[sp(nm[k]) for k in range(ns)]).map(list)),
                     kind=st.just(list(kind)),
                     ids=st.sampled_from([0, 0, 1, 2, 3]),                 # IDs ascending, descending, scattered, large
                     init=st.sampled_from([None] * 5 + [1, 2, 3]).map(lambda k: k and dict(sp=k, npc=1 + k % 2, seed=k)),   # a distribution over the mesh, too
                     t0=st.sampled_from([0.0, 0.0, 3.7, 1000.0]),          # time at the start, in steps
                     inner=st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=3)) if inner else st.just([]))
            if more:
                d['more'] = st.just(more)
            d['field'] = st.just(None) if dyn == 'neutral' else st.fixed_dictionaries(dict(
                el=st.sampled_from(list(els)), seed=st.integers(0, 10 ** 6), esc=st.sampled_from([0.5, 0.05, 2.0])))
            return st.fixed_dictionaries(d)
        return st.sampled_from(list(nspecies)).flatmap(spec)
    return st.sampled_from(list(kinds)).flatmap(build)


# what exists: Python movers for every geometry; C++ movers as listed
PY_KINDS = [('x', 'charged'), ('xy', 'charged'), ('xyz', 'charged'), ('r', 'charged'), ('x', 'neutral'), ('xy', 'neutral'), ('xyz', 'neutral'), ('xy', 'both'), ('x', 'both')]
CPP_KINDS = [('x', 'charged'), ('xy', 'charged'), ('r', 'charged'), ('xy', 'neutral'), ('xyz', 'neutral'), ('xy', 'both')]

# particles with more coordinates than the mesh
MORE_PY = [('x', 'charged', 1), ('x', 'charged', 2), ('xy', 'charged', 1), ('x', 'neutral', 1), ('x', 'neutral', 2), ('xy', 'neutral', 1), ('x', 'both', 2), ('xy', 'both', 1)]
MORE_CPP = [('x', 'neutral', 1), ('x', 'neutral', 2), ('xy', 'neutral', 1)]
PY_ALL, CPP_ALL = PY_KINDS * 3 + MORE_PY, CPP_KINDS * 2 + MORE_CPP

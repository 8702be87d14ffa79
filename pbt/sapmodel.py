"""History runner shared by C01 and C02: a segmented store against a plain list."""
def strategy(tier, extra, forms):
    from hypothesis import strategies as st
    op = st.one_of(
        st.tuples(st.just('push'), st.integers(1, 9), st.sampled_from(forms)),
        st.tuples(st.just('pushto'), st.integers(0, 3), st.sampled_from(forms)),
        st.tuples(st.just('set'), st.integers(0, 60), st.integers(0, 1000)),
        st.tuples(st.just('loop'), st.integers(0, 12)),
        st.tuples(st.just('pass'), st.lists(st.booleans(), min_size=1, max_size=8), st.booleans()),
        st.tuples(st.just('passkeep'), st.integers(0, 30)),
        st.tuples(st.just('trunc'), st.integers(0, 60)),
        st.just(('swap',)),           # go on with the other of two stores
    )
    return st.fixed_dictionaries(dict(
        L=st.one_of(st.integers(1, 7), st.sampled_from([10, 32, 100])),
        L2=st.integers(1, 7),
        wild=st.booleans(),
        **extra,
        ops=st.lists(op, min_size=1, max_size=24 if tier == 'quick' else 60)))


def run_history(case, ctx, make):
    import numpy as np
    from core import check
    L = case['L']
    wild = case.get('wild', False)
    sap, dt, cpp = make(case)
    other = [None, [], case.get('L2', L)]
    nf = sum(1 for n in dt.names if dt[n].kind == 'f')
    model = []
    uid = [0]

    def mk():
        uid[0] += 1
        u = uid[0]
        if wild:                      # values that use all bits of their type
            return tuple(dt[n].type((-1) ** (u + k) * (0.1 * u + k / 3.0) * 10.0 ** ((7 * u + 5 * k) % 61 - 30)).item()
                         for k, n in enumerate(dt.names) if dt[n].kind == 'f') + \
                tuple((7 * u + k, -u - k, 2147483647 - u, 70001 * u, -2147483648 + 3 * u)[(u + k) % 5]
                      for k in range(len(dt.names) - nf))
        return tuple(u + 0.5 * k if k % 2 == 0 else -0.25 * k - u for k in range(nf)) + \
            tuple(7 * u + k for k in range(len(dt.names) - nf))

    def vals(item):
        if isinstance(item, dict):
            check(set(item) == set(dt.names), 'item fields %s, expected %s', sorted(item), sorted(dt.names))
            return tuple(item[n] for n in dt.names)
        return tuple(item[n].item() for n in dt.names)

    dropped = [False]
    big = [False]

    def compare(where):
        n = sap.get_number_of_items()
        check(n == len(model), '%s: item count %d, expected %d', where, n, len(model))
        cap = sap.get_capacity()[1]
        check(cap >= n, '%s: capacity %d below item count %d', where, cap, n)
        ns = sap.get_number_of_segments()
        check(cap == ns[1] * L and sap.get_capacity()[0] == ns[0] * L, '%s: capacity %s with %s segments of %d', where, sap.get_capacity(), ns, L)
        mb = sap.get_number_of_mbytes()
        for i in (0, 1):
            check(abs(mb[i] * 1e6 - ns[i] * L * dt.itemsize) < 1e-6 * ns[i] * L * dt.itemsize + 1e-6, '%s: %s MB with %s segments', where, mb, ns)
        for i, m in enumerate(model):
            check(vals(sap.get_item(i)) == m, '%s: item %d is %s, expected %s', where, i, vals(sap.get_item(i)), m)
            if cpp:
                check(tuple(sap.get_as_tuple(i)) == m, '%s: tuple of %d is %s, expected %s', where, i, sap.get_as_tuple(i), m)
                check(tuple(sap.get_as_list(i)) == m, '%s: list of %d is %s, expected %s', where, i, sap.get_as_list(i), m)
            else:
                check(vals(sap[i]) == m, '%s: [%d] is %s, expected %s', where, i, vals(sap[i]), m)
            seg, off = sap.get_segment_and_offset(i)
            check(vals(seg[off]) == m, '%s: segment/offset of %d gives %s, expected %s', where, i, vals(seg[off]), m)

    def iterate(where, maxseg=None):
        got = []
        k = 0
        n, seg = sap.init_out_loop()
        while isinstance(seg, np.ndarray):
            check(n <= L and len(seg) >= n and n > 0, '%s: segment %d reports %d items', where, k, n)
            got += [vals(seg[i]) for i in range(n)]
            for i in (0, n - 1):
                fi = sap.get_full_index(i, 'out')
                check(fi == len(got) - n + i, '%s: full index of offset %d in segment %d is %d, expected %d', where, i, k, fi, len(got) - n + i)
            k += 1
            if maxseg is not None and k >= maxseg:
                check(got == model[:len(got)], '%s: partial iteration gives %s, expected %s', where, got, model[:len(got)])
                return
            check(k <= len(model) // L + 1, '%s: too many segments in the iteration', where)
            n, seg = sap.get_next_segment('out')
        check(got == model, '%s: iteration gives %s, expected %s', where, got, model)

    def do_pass(keep, modify):
        nonlocal model
        n, pin, pout = sap.init_inout_loop()
        new = []
        idx = 0
        iout = 0
        while isinstance(pin, np.ndarray):
            for i in range(n):
                if iout == L:
                    pout = sap.get_next_out_segment()
                    if cpp:
                        pout = pout[0]
                    iout = 0
                pout[iout] = pin[i]
                fi, fo = sap.get_full_indices(i, iout)
                check(fi == idx, 'pass: full in index %d, expected %d', fi, idx)
                check(fo == len(new), 'pass: full out index %d, expected %d', fo, len(new))
                check(sap.get_full_index(i, 'in') == idx, 'pass: full index of in item wrong')
                check(vals(pin[i]) == model[idx], 'pass: in item %d is %s, expected %s', idx, vals(pin[i]), model[idx])
                cur = sap.get_current_out_segment()
                check(vals(cur[iout]) == model[idx], 'pass: current out segment does not hold the item just written')
                if keep(idx):
                    m = list(model[idx])
                    if modify:
                        m[0] = dt[0].type(m[0] + 1.0).item()
                        pout[iout][dt.names[0]] = m[0]
                    new.append(tuple(m))
                    iout += 1
                else:
                    dropped[0] = True
                idx += 1
            n, pin = sap.get_next_segment('in')
        check(idx == len(model), 'pass: %d items read, expected %d', idx, len(model))
        sap.set_number_of_items('out', len(new))
        model = new

    def push(form):
        m = mk()
        if form == 'record':
            a = np.empty(1, dtype=dt)
            a[0] = m
            r = sap.push_back(a)
            a[0] = mk()               # the store has its own copy
        elif form == 'list':
            r = sap.push_back(list(m) if cpp else m)
        else:
            r = sap.push_back(m)
        off, fi = r
        check(fi == len(model), 'push_back returned full index %d, expected %d', fi, len(model))
        check(off == len(model) % L, 'push_back returned offset %d, expected %d', off, len(model) % L)
        model.append(m)
        cur = sap.get_current_out_segment()
        check(vals(cur[off]) == m, 'after push_back the current out segment holds %s at the returned offset, expected %s', vals(cur[off]), m)
        check(sap.get_full_index(off, 'out') == fi, 'after push_back the full index of offset %d is %d, expected %d', off, sap.get_full_index(off, 'out'), fi)

    for op in case['ops']:
        k = op[0]
        if k == 'push':
            for _ in range(op[1]):
                push(op[2])
        elif k == 'pushto':           # fill exactly to a segment boundary
            tgt = (len(model) // L + op[1]) * L
            while len(model) < tgt:
                push(op[2])
        elif k == 'set' and model:
            i = op[1] % len(model)
            m = (float(op[2]),) + mk()[1:]
            if cpp:
                seg, off = sap.get_segment_and_offset(i)
                seg[off] = m
            else:
                sap[i] = m
            model[i] = m
        elif k == 'loop':
            iterate('loop', op[1] or None)
        elif k == 'pass':
            pat = op[1]
            do_pass(lambda i: pat[i % len(pat)], op[2])
        elif k == 'passkeep':         # keep exactly the first/last k
            kk = op[1] % (len(model) + 1)
            do_pass(lambda i: i >= len(model) - kk, False)
        elif k == 'trunc':
            kk = op[1] % (len(model) + 1)
            sap.set_number_of_items('out', kk)
            if kk < len(model):
                dropped[0] = True
            model = model[:kk]
        elif k == 'swap':
            if other[0] is None:
                other[0] = make(dict(case, L=other[2]))[0]
            (sap, model, L), other = (other[0], other[1], other[2]), [sap, model, L]
        if len(model) > L:
            big[0] = True
        compare(k)
        ctx.label(k)
    iterate('end')
    compare('end')
    if other[0] is not None:
        (sap, model, L), other = (other[0], other[1], other[2]), [sap, model, L]
        iterate('end of the other store')
        compare('end of the other store')
    ctx.label('L=%d' % L)
    ctx.nontrivial(big[0] and dropped[0])

"""C23: printing an object shows its current settings, at any time; the answer to a pause is obeyed."""
RULE = ('a case is one object (run control, mesh, spherical mesh, mesh input, field, field solver, rectangular region, unit table) made from generated settings, some of them left unset and some changed after construction, and printed with str(); '
        'or the answer typed at a pause. The text must contain, for each quantity that the object prints, one line "name = value" with the current value; printing changes nothing. Non-trivial: at least two of the settings '
        'were given a value different from the initial one, or the answer is not empty.')
ASSUMPTIONS = ['layout (spaces, order, underscores or spaces in names) is not judged', 'quantities that an object does not print are not judged']
CASES = {'quick': 4000, 'thorough': 20000}
CONTROL = ['title', 'author', 'dt', 'n_timesteps', 'particle_output_file', 'particle_output_attributes']
INPUT = ['rmin', 'rmax', 'stretch', 'nr', 'field_boundary_dict', 'particle_boundary_dict', 'particle_boundary_file']
OTHER = [['potential_field_output_file', 'time', 'E0', 'particle_output_interval'], ['field_boundary_file', 'mesh_file', 'particle_source_dict', 'field_boundary_marker']]     # not printed


def strategy(tier):
    from hypothesis import strategies as st
    import dtgen
    word = st.text('abcxyz_.0129/', min_size=1, max_size=10)
    num = st.one_of(st.integers(-5, 10 ** 6), st.floats(allow_nan=False, allow_infinity=False))
    val = st.one_of(num, word, st.none(), st.booleans(), st.lists(word, max_size=3), st.dictionaries(word, st.integers(0, 9), max_size=3))
    D = lambda kind, **k: st.fixed_dictionaries(dict(k, kind=st.just(kind)))
    sets = lambda names: st.lists(st.tuples(st.sampled_from(names), val), max_size=9)
    i = st.integers(0, 10 ** 6)
    return st.one_of(
        D('control', sets=sets(CONTROL + OTHER[0])),
        D('input', sets=sets(INPUT + OTHER[1])),
        D('mesh', mesh=dtgen.mesh_strategy(), skin=st.booleans()),
        D('sphere', n=st.integers(1, 9), r=st.tuples(st.floats(0, 2), st.floats(0.1, 5)).map(list), stretch=st.sampled_from([1.0, 1.3, 2.0]), tables=st.booleans()),
        D('field', mesh=dtgen.mesh_strategy(), el=st.sampled_from([['DG', 0], ['CG', 1], ['CG', 2], ['DG', 1]]), type=st.sampled_from(['scalar', 'vector']), skin=st.booleans()),
        D('region', mesh=dtgen.mesh_strategy(), lo=st.lists(st.floats(-0.2, 0.6), min_size=3, max_size=3), w=st.lists(st.floats(0.3, 1.2), min_size=3, max_size=3)),
        D('solver', n=st.integers(2, 8), lin=st.sampled_from([['lu', None], ['cg', 'none'], ['gmres', 'ilu'], ['cg', 'jacobi']]), const=st.booleans()),
        D('units', sets=st.lists(st.tuples(st.sampled_from(['eV', 'ns', 'AMU', 'cm', 'elem_charge']), num), max_size=4)),
        D('pause', answer=st.one_of(st.sampled_from(['q', '!', '', 'Q', 'quit', 'q ', '!!', 'c', 'n', ' ']), st.text(max_size=3)), caller=word))


def preload():
    import simlib
    simlib.preload()
    import UserMesh_y_Fields_Spherical1D_Module, dolfin as df
    m = df.BoundaryMesh(df.UnitSquareMesh(1, 1), 'exterior')
    for F in (df.FunctionSpace, df.VectorFunctionSpace):
        df.Function(F(m, 'DG', 0))
        for e in (('CG', 2), ('DG', 1)):
            df.Function(F(df.UnitIntervalMesh(1), *e))


def shown(text, names, obj, what):
    """each name has one line with the value it has now"""
    from core import check
    lines = {}
    for line in text.splitlines():
        if '=' in line:
            k, v = line.split('=', 1)
            lines.setdefault(k.strip().replace(' ', '_').lower(), []).append(v.strip())
    for nm in names:
        want = str(obj[nm] if isinstance(obj, dict) else getattr(obj, nm)).strip()
        got = lines.get(nm.lower(), [])
        check(len(got) == 1 and got[0] == want, '%s: %s is %r, printed as %r in\n%s', what, nm, want, got, text)


def run(case, ctx):
    import numpy as np, io, contextlib
    from core import check, Discard
    import dtlib
    k = case['kind']
    ctx.label(k)
    if k in ('control', 'input'):
        if k == 'control':
            from DT_Module import DTcontrol_C
            o, names = DTcontrol_C(), CONTROL
        else:
            from UserMesh_y_Fields_Spherical1D_Module import UserMeshInput1DS_C
            o, names = UserMeshInput1DS_C(), INPUT
        initial = {n: getattr(o, n, None) for n in names}
        shown(str(o), names, initial, k)
        now = dict(initial)
        for n, v in case['sets']:
            setattr(o, n, v)
            now[n] = v
            shown(str(o), names, now, k)
        check(all(getattr(o, n) == v for n, v in now.items() if n in dict(case['sets'])), '%s: printing changed a setting', k)
        ctx.nontrivial(len([n for n in now if n not in initial or now[n] != initial[n]]) > 1)

    elif k in ('mesh', 'field', 'region'):
        mesh, M = dtlib.make_mesh_M(case['mesh'])
        skin = case.get('skin') and mesh.geometry().dim() == 2
        if skin:                                   # a curve in the plane: its two dimensions differ
            import dolfin as df
            from Dolfin_Module import Mesh_C
            mesh = df.BoundaryMesh(mesh, 'exterior')
            M = Mesh_C(Mesh=mesh, coordinate_system='Cartesian')
        tdim, gdim, nc = mesh.topology().dim(), mesh.geometry().dim(), mesh.num_cells()
        ctx.label('skin' if skin else 'plain')
        if k == 'region':
            g = dtlib.Geo(mesh)
        if k == 'mesh':
            shown(str(M), ['mesh_tdim', 'mesh_gdim'], dict(mesh_tdim=tdim, mesh_gdim=gdim), 'mesh of %d cells in %dD' % (nc, gdim))
            check(M.mesh.num_cells() == nc, 'printing changed the mesh')
            ctx.nontrivial(nc > 1)
        elif k == 'field':
            import dolfin as df
            from Dolfin_Module import Field_C
            el = case['el'] if gdim == 1 else ['DG', 0] if skin else case['el'] if case['el'] in (['DG', 0], ['CG', 1]) else ['CG', 1]     # few forms to compile
            F = Field_C(M, el[0], el[1], case['type'])
            F.function.vector()[:] = np.arange(float(F.function.vector().size()))
            shown(str(F), ['mesh_tdim', 'mesh_gdim', 'field_type', 'element_type', 'element_degree'],
                  dict(mesh_tdim=tdim, mesh_gdim=gdim, field_type=case['type'], element_type=el[0], element_degree=el[1]), 'field')
            check((F.function.vector()[:] == np.arange(float(F.function.vector().size()))).all(), 'printing changed the field')
            ctx.nontrivial(nc > 1)
        else:
            from props import c17
            R, cells = c17.region(M, g, list(zip(case['lo'], case['w'])))
            if R is None:
                raise Discard()
            nin, pa, pb = len(cells), R.pmin, R.pmax
            text = str(R)
            shown(text, ['gdim', 'pmin', 'pmax', 'ncell'], dict(gdim=g.dim, pmin=pa, pmax=pb, ncell=nin), 'region of %d cells' % nin)
            for q in ('cell_list', 'volume', 'midpoint'):
                check(any(q in l.split('=')[0] and ('(%d)' % nin) in l for l in text.splitlines()), 'region of %d cells: the size of %s is not shown in\n%s', nin, q, text)
            ctx.nontrivial(nin > 1)

    elif k == 'sphere':
        import UserMesh_y_Fields_Spherical1D_Module as U
        mi = U.UserMeshInput1DS_C()
        mi.rmin, mi.rmax, mi.nr, mi.stretch = case['r'][0], case['r'][0] + case['r'][1], case['n'], case['stretch']
        M = U.UserMesh1DS_C(mi, compute_dictionaries=case['tables'], compute_tree=case['tables'])
        shown(str(M), ['mesh_tdim', 'mesh_gdim'], dict(mesh_tdim=1, mesh_gdim=1), 'spherical mesh')
        shown(str(mi), INPUT, mi, 'mesh input')
        shown(str(mi), ['rmin', 'rmax', 'nr', 'stretch'], dict(rmin=case['r'][0], rmax=case['r'][0] + case['r'][1], nr=case['n'], stretch=case['stretch']), 'mesh input')
        ctx.nontrivial(case['n'] > 1)

    elif k == 'solver':
        from props import c11, c21
        W = c11.World(dict(c21.POISSON, kind='sph', mesh=dict(dim=1, n=[case['n']], lo=[0.5], hi=[1.5], radial=True), lin=case['lin']))
        S = W.S[0]
        S.pde_has_constant_coeffs = case['const']
        u = np.array(S.u.vector()[:])
        text = str(S)
        shown(text, ['solver_parameters', 'pde_has_constant_coeffs'], dict(solver_parameters=S.solver_parameters, pde_has_constant_coeffs=case['const']), 'solver')
        check(all(str(p) in text for p in case['lin'] if p), 'solver: %s is not shown in\n%s', case['lin'], text)
        check((np.array(S.u.vector()[:]) == u).all(), 'printing changed the solution')
        ctx.nontrivial(case['n'] > 1)

    elif k == 'units':
        from UserUnits_Module import MyPlasmaUnits_C as U
        saved = dict(vars(U))
        try:
            want = {n: v for n, v in saved.items() if isinstance(v, (int, float))}
            for n, v in case['sets']:
                setattr(U, n, v)
                want[n] = v
            f = io.StringIO()
            with contextlib.redirect_stdout(f):
                U.print_units()
            shown(f.getvalue(), list(want), want, 'units')
        finally:
            for n, v in case['sets']:
                setattr(U, n, saved[n]) if n in saved else hasattr(U, n) and delattr(U, n)
        ctx.nontrivial(len(dict(case['sets'])) > 1)

    else:
        import builtins
        from DT_Module import DTcontrol_C
        ctrl, ans = DTcontrol_C(), case['answer']
        old = builtins.input
        builtins.input = lambda prompt='': ans
        out = None
        try:
            out = ctrl.get_keyboard_input(case['caller'])
        except SystemExit as e:
            check(ans == 'q', 'the answer %r to a pause ended the run', ans)
            check(case['caller'] in str(e.code), 'the message %r does not name the caller %r', e.code, case['caller'])
            out = 'exit'
        finally:
            builtins.input = old
        check((out == 'exit') == (ans == 'q'), 'the answer %r to a pause: %r', ans, out)
        if out != 'exit':
            check(out is (ans != '!'), 'after the answer %r, pausing is %r', ans, out)
        ctx.nontrivial(ans != '')

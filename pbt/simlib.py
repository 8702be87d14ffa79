"""Worker side: build a particle simulation (Python or C++ movers) from a JSON spec, and an independent model of one time-step."""
import numpy as np
import dtlib
from core import Discard, HarnessBug, check

DELETE, TRAJ = 1, 2
QM = [(1.0, 1.0), (-1.0, 2.0), (-1.602e-19, 9.109e-31), (3.2e-19, 1.67e-27)]


def jit(i, k):
    """deterministic, irrational-looking offset in (-0.5, 0.5): keeps generated points off ties"""
    return (0.6180339887498949 * (i + 1) + 0.4142135623730951 * (k + 1) * (i + 3)) % 1.0 - 0.5


def preload(cpp=True):
    import numpy_types_solib
    import dolfin as df
    for m in (df.UnitIntervalMesh(1), df.UnitSquareMesh(1, 1), df.UnitCubeMesh(1, 1, 1)):
        for e, d in (('DG', 0), ('CG', 1)):
            df.FunctionSpace(m, e, d)
            df.VectorFunctionSpace(m, e, d)
    if cpp:
        import segmented_array_pair_solib, mesh_entity_arrays_solib, dolfin_functions_solib
        import particle_cartesian_x_solib, particle_cartesian_xy_solib, particle_cartesian_xyz_solib, particle_spherical_r_solib
        import user_particle_boundary_functions_cartesian_x_solib, user_particle_boundary_functions_cartesian_xy_solib
        import user_particle_boundary_functions_cartesian_xyz_solib, upbfs_spherical_r_solib
    import UserParticles_2D_e, UserParticles_1D


class Log(list):
    pass


def py_bcs(coord, P, log):
    """The repository's own Python boundary functions (those the C++ ones mirror), logging each call."""
    if coord == 'spherical_r':
        from UserParticles_1D import UserParticleBoundaryFunctions_C as Base
        names = ['default_bc', 'default_bc_at_rmin']
    else:
        from UserParticles_2D_e import UserParticleBoundaryFunctions_C as Base
        names = ['default_bc', 'default_bc_at_rmin', 'bc_at_rmin_for_test_electrons']
    base = Base(P.position_coordinates, P.dx)

    class Fns(object):
        pass
    f = Fns()

    def wrap(nm):
        fn = getattr(base, nm)

        def g(p, speciesName, facetIndex, dx_fraction=None, facet_normal=None):
            log.append(dict(fn=nm, sp=speciesName, facet=int(facetIndex), frac=float(dx_fraction), normal=dtlib.pad(np.array(facet_normal, float).ravel()[:P.particle_dimension], P.particle_dimension),
                            p=np.array(p.tolist(), dtype=object), uid=int(p['unique_ID'])))
            fn(p, speciesName, facetIndex, dx_fraction=dx_fraction, facet_normal=facet_normal)
        return g
    for nm in names:
        setattr(f, nm, wrap(nm))
    return f


def action_of(coord, bname, sp):
    if bname == 'rmin' and (coord == 'spherical_r' or sp == 'test_electrons'):
        return 'reflect'
    return 'absorb'


class Sim:
    """spec: mesh, dt, L, nsteps, bnd (list of 'rmin'/'wall' per side), species [{name, qm, neutral, parts}], field {el, seed, esc}"""

    def __init__(self, spec, cpp, L=None, traj=None, user_bcs=None, markers=None, bdict=None, ctrl_extra=None, actions=None, only=None):
        from Dolfin_Module import Mesh_C, Field_C
        from Particle_Module import Particle_C, ParticleInput_C, ParticleSpecies_C, ParticleMeshBoundaryConditions_C
        from DT_Module import DTcontrol_C
        import dolfin as df
        self.spec, self.cpp = spec, cpp
        self.actions = actions
        self.L = L or spec['L']
        ms = spec['mesh']
        self.mesh, self.M = dtlib.make_mesh_M(ms)
        self.g = g = dtlib.Geo(self.mesh)
        self.dim = dim = g.dim
        self.radial = bool(ms.get('radial'))
        # particles may have more coordinates than the mesh (spec 'more'); the additional ones are not confined by anything
        self.pdim = pdim = dim if self.radial else min(3, dim + spec.get('more', 0))
        self.coord = 'spherical_r' if self.radial else dtlib.CARTESIAN[pdim]
        self.names = dtlib.COORDS[self.coord]
        self.span = 1.0 if pdim == dim else max(1e-3, float(np.ptp(self.mesh.coordinates())))
        self.dt = spec['dt']
        self.h = float(np.median(g.hmin))

        ctrl = DTcontrol_C()
        ctrl.dt = self.dt
        ctrl.n_timesteps = spec['nsteps']
        ctrl.MAX_FACET_CROSS_COUNT = 10000
        ctrl.timeloop_count = 0
        ctrl.time = spec.get('t0', 0.0) * self.dt
        ctrl.title = 'case'
        ctrl.author = 'verif'
        ctrl.write_trajectory_files = False
        ctrl.apply_solved_electric_field = None
        ctrl.apply_random_external_electric_field = None
        for k, v in (ctrl_extra or {}).items():
            setattr(ctrl, k, v)
        self.ctrl = ctrl

        Particle_C.UNIQUE_ID_COUNTER = 0
        pin = ParticleInput_C()
        pin.precision = np.float32 if spec.get('prec') == 'single' else np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = self.coord
        pin.force_components = list(self.names[:dim])
        pin.force_precision = np.float64
        pin.use_cpp_integrators = cpp
        sps = []
        for s in spec['species']:
            q, m = QM[s['qm'] % len(QM)]
            sps.append(ParticleSpecies_C(s['name'], 0.0 if s['neutral'] else q, m, 'neutral' if s['neutral'] else 'charged'))
        pin.particle_species = tuple(sps)
        old = Particle_C.SEGMENT_LENGTH
        Particle_C.SEGMENT_LENGTH = self.L          # children are forked per batch; set for the whole case
        self.P = P = Particle_C(pin)
        self.qom = {s.name: s.charge / s.mass for s in sps}
        self.mass = {s.name: s.mass for s in sps}
        self.charge = {s.name: s.charge for s in sps}

        # boundary marks
        self.fv = dtlib.facet_vertex_sets(self.mesh)
        self.key2facet = {v: k for k, v in self.fv.items()}
        if markers is None:
            markers, bdict = self.side_markers(spec['bnd'])
        elif callable(markers):
            markers, bdict = markers(self)
        self.bdict = bdict
        self.tag2name = {v: k for k, v in bdict.items()}
        self.facet_tag = markers                      # facet index -> tag (non-zero ones)
        mf = df.MeshFunction('size_t', self.mesh, dim - 1, 0)
        for f, t in markers.items():
            mf[f] = t
        self.M.particle_boundary_marker = mf
        self.M.particle_boundary_dict = bdict
        P.initialize_particle_mesh(self.M)
        self.log = Log()
        if cpp:
            if self.radial:
                import upbfs_spherical_r_solib as ub
            else:
                import importlib
                ub = importlib.import_module('user_particle_boundary_functions_%s_solib' % self.coord)
            self._ub = ub.UserParticleBoundaryFunctions(P.position_coordinates)
            P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, self.M, self._ub, print_flag=False)
        else:
            P.pmesh_bcs = ParticleMeshBoundaryConditions_C(P.species_names, self.M, user_bcs(self) if user_bcs else py_bcs(self.coord, P, self.log))

        # field
        self.F = None
        fs = spec.get('field')
        if fs:
            el = ('DG', 0) if fs['el'] == 0 else ('CG', 1)
            self.el = el
            self.F = Field_C(self.M, element_type=el[0], element_degree=el[1], field_type='vector')
            qmax = max([abs(v) for v in self.qom.values()] + [1e-30])
            self.Eamp = fs['esc'] * self.h / (self.dt ** 2 * qmax)
            self.fvals = dtlib.fill(self.F, fs['seed'], self.Eamp)
            self.cd = [dtlib.cell_dofs(self.F, k) for k in range(dim)] if el[0] == 'DG' else [dtlib.vertex_dofs(self.F, g, k) for k in range(dim)]

        # trajectories
        if traj is not None:
            from RecordedData_Module import Trajectory_C
            P.traj_T = Trajectory_C(traj, ctrl, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)

        # particles, as a user lists them
        self.ids = {}
        nid = 0
        ntot = sum(len(s['parts']) for s in spec['species'])
        idmode = spec.get('ids', 0)
        lists = {}
        for s in spec['species']:
            lst = []
            for i, p in enumerate(s['parts']):
                r = self.record(p, i + 17 * len(lists), nid)
                if idmode:
                    r = r[:-2] + (ntot - 1 - nid if idmode == 1 else (nid * 7 + 3) % 101 if ntot <= 100 and idmode == 2 else 3 * nid + 2 if idmode == 2 else nid * 30011 + 1009, r[-1])
                lst.append(r)
                nid += 1
            lists[s['name']] = lst if only is None or s['name'] in only else []
        init = spec.get('init')
        if init and g.nc > 60:
            init = None
        self.lists = lists
        Particle_C.UNIQUE_ID_COUNTER = nid if idmode < 2 else 3 * nid + 110 if idmode == 2 else (nid + 1) * 30011

        class UP(object):
            pass
        for sn, lst in lists.items():
            setattr(UP, sn, staticmethod(lambda type, lst=lst: (len(lst), lst)))
        P.user_particles_class = UP
        P.initial_particles_dict = {}
        isn = P.species_names[init['sp'] % len(P.species_names)] if init else None
        if init and (only is None or isn in only):             # some particles are created over the whole mesh before the listed ones
            from Dolfin_Module import WholeMesh_C
            P.initial_particles_dict['over_mesh'] = (dict(species_name=isn, initial_distribution_type='function_over_region', number_density=3.0, thermal_speed=0.2 * self.h / self.dt,
                                                          drift_velocity=np.zeros(pdim), velocity_coordinate_system='x_y_z', number_per_cell=init['npc'], timestep_interval=1),
                                                     P.create_maxwellian_particles, WholeMesh_C(self.M))
            np.random.seed(init['seed'])
        P.initial_particles_dict.update({'init_' + sn: ({'species_name': sn, 'initial_distribution_type': 'listed'},) for sn in lists if lists[sn]})
        P.initialize_particles({sn: False for sn in P.species_names})
        P.initialize_particle_integration()
        P.compute_mesh_cell_indices()

    # ---- inputs
    def side_markers(self, bnd):
        X = dtlib.box_coords(self.spec['mesh'], self.g.X)
        lo, hi = X.min(0), X.max(0)
        out = {}
        bd = {}
        names = []
        for nm in bnd:
            if nm not in names:
                names.append(nm)
        for nm in sorted(set(bnd[:2 * self.dim])):
            bd[nm] = len(bd) + 1
        for key, cells in self.g.facet_cells.items():
            if len(cells) != 1:
                continue
            x = X[list(key)]
            out[self.key2facet[key]] = bd[bnd[sum(key) % (2 * self.dim)]]      # facets around left-out cells
            for d in range(self.dim):
                for s, v in enumerate((lo[d], hi[d])):
                    if np.all(np.abs(x[:, d] - v) < 1e-9 * self.g.scale):
                        out[self.key2facet[key]] = bd[bnd[2 * d + s]]
        inner = sorted(self.key2facet[k] for k, c in self.g.facet_cells.items() if len(c) == 2)
        if inner and self.spec.get('inner') and 'wall' in bd:       # some absorbing facets inside the domain
            for i in self.spec['inner']:
                out[inner[i % len(inner)]] = bd['wall']
        return out, bd

    def record(self, p, i, uid):
        dim = self.dim
        c = p['c'] % self.g.nc
        w = [0.03 + abs(p['w'][k] + 0.05 * jit(uid, k)) for k in range(dim + 1)]
        x = self.g.point_in(c, w)
        u = np.array([p['v'][k] + 0.03 * jit(uid, k + 7) for k in range(dim)]) * p['s'] * self.h / self.dt
        t = [float(v) for v in x] * 2 + [float(v) for v in u]
        if self.pdim > dim:
            m = self.pdim - dim
            xm = [1.7 * self.span * jit(uid, k + 20) for k in range(m)]
            um = [(p['v'][(dim + k) % 3] + 0.03 * jit(uid, k + 27)) * p['s'] * self.h / self.dt for k in range(m)]
            x = [float(v) for v in x] + xm
            t = x * 2 + [float(v) for v in u] + um
        return tuple(t + [float(p['wt']), (TRAJ if p['tr'] else 0) | p.get('fl', 0), -1, uid, 0])

    # ---- state
    def state(self, sn):
        out = []
        sap = self.P.sap_dict[sn]
        n, seg = sap.init_out_loop()
        while isinstance(seg, np.ndarray):
            out.append(np.array(seg[0:n]))
            n, seg = sap.get_next_segment('out')
        if not out:
            return np.zeros(0, dtlib.record_dtype(self.names))
        return np.concatenate(out)

    def begin(self):
        self.ctrl.timeloop_count += 1
        self.ctrl.time += self.dt

    def advance(self, old=False, **kw):
        """old: use the all-species mover move_particles_in_electrostatic_field() (Python only)"""
        P = self.P
        kw.setdefault('neg_E_field', self.F)
        if P.charged_species:
            if old:
                P.move_particles_in_electrostatic_field(self.ctrl, **kw)
            else:
                P.advance_charged_particles_in_E_field(self.ctrl, **kw)
        if P.neutral_species:
            P.advance_neutral_particles(self.ctrl)

    # ---- model
    def E_at(self, c, x):
        """the field -(-E) at a point of cell c"""
        if self.F is None:
            return np.zeros(self.pdim)
        if self.el[0] == 'DG':
            return dtlib.pad([-self.fvals[self.cd[k][c][0]] for k in range(self.dim)], self.pdim)
        b = self.g.bary(c, x)
        return dtlib.pad([-(b @ self.fvals[self.cd[k][c]]) for k in range(self.dim)], self.pdim)

    def predict(self, sn, r, apply_E=True, move=True, u=None):
        """One step for the record r (u: velocity to move with, if given). Returns a dict; raises Discard when the path is too close to a tie."""
        given = u
        g, dim, nm = self.g, self.dim, self.names
        x = np.array([r[k] for k in nm])
        u = np.array([r['u' + k] for k in nm]) if given is None else np.array(given)
        c = int(r['cell_index'])
        E = np.zeros(self.pdim)
        if self.charge[sn] != 0.0 and apply_E and given is None:
            E = self.E_at(c, x)
            u = u + self.qom[sn] * self.dt * E
        out = dict(E=E, u1=u.copy(), hits=[], alive=True)
        if not move:
            out.update(x=x, u=u, x0=np.array([r[k + '0'] for k in nm]), cell=c, crossings=0)
            return out
        start = x.copy()
        p0, p1 = x.copy(), x + u * self.dt
        out['free'] = p1.copy()
        ncross = 0
        came = None
        tleft, tnow = self.dt, 0.0
        tol = 1e-7 * self.h
        while True:
            d = p1 - p0
            ln = float(np.linalg.norm(d[:dim]))
            if ln == 0.0:
                break
            b0 = g.bary(c, p0)
            db = g.grads(c) @ d[:dim]
            ts = []
            for i in range(dim + 1):
                if came is not None and g.facet_key(c, i) == came:
                    continue
                if db[i] < 0:
                    ts.append((max(b0[i], 0.0) / -db[i], i))
            ts.sort()
            if not ts:
                break
            if abs(ts[0][0] - 1.0) * ln < tol:
                raise Discard()
            if ts[0][0] > 1.0:
                # the end point must also be clear of every facet, on either side
                if g.depth(c, p1) < tol * 1e-2:
                    raise Discard()
                break
            if len(ts) > 1 and (ts[1][0] - ts[0][0]) * ln < tol:
                raise Discard()
            if came is not None and ts[0][0] * ln < tol:
                raise Discard()
            t, i = ts[0]
            key = g.facet_key(c, i)
            ncross += 1
            if ncross > 5000:
                raise Discard()
            pc = p0 + t * d
            tnow += t * tleft
            tleft *= (1.0 - t)
            facet = self.key2facet[key]
            nb = g.neighbor(c, i)
            tag = self.facet_tag.get(facet, 0)
            n = dtlib.pad(g.normal(c, i), self.pdim)
            act = None
            if tag:
                act = self.action(self.tag2name[tag], sn)
                out['hits'].append(dict(facet=facet, normal=n, frac=t, x=pc, t=tnow, name=self.tag2name[tag], act=act, u=u.copy(), xend=p1.copy(), E=E))
            p0 = pc
            came = key
            if act == 'absorb':
                if nb < 0:
                    out['alive'] = False
                    c = -1
                    break
                out['alive'] = False
            elif act == 'reflect':
                p1 = p1 - 2.0 * (n @ (p1 - pc)) * n
                u = u - 2.0 * (n @ u) * n
            if nb < 0:
                if act != 'reflect':
                    raise HarnessBug('path leaves the mesh through an unmarked facet')
            else:
                if act == 'reflect':
                    raise HarnessBug('reflection at an interior facet')
                c = nb
        out.update(x=p1, u=u, x0=p0 if ncross else start, cell=c, crossings=ncross)
        return out

    def vec(self, r, fmt='%s'):
        return np.array([r[fmt % k] for k in self.names])

    def tol(self, r, out):
        """length tolerance for a path: rounding of the coordinates and of each reflection/crossing"""
        ln = float(np.linalg.norm(out['u'])) * self.dt
        return 1e-9 * (self.h + ln) + 1e-12 * self.g.scale

    def step(self, old=False, **kw):
        """Predict and make one step. Yields (species, before record, prediction, after record or None)."""
        before = {sn: self.state(sn) for sn in self.P.species_names}
        pred = {sn: [self.predict(sn, r) for r in before[sn]] for sn in before}
        self.begin()
        del self.log[:]
        self.advance(old=old, **kw)
        out = []
        for sn in before:
            after = {int(r['unique_ID']): r for r in self.state(sn)}
            for r, p in zip(before[sn], pred[sn]):
                out.append((sn, r, p, after.get(int(r['unique_ID']))))
        return out

    def action(self, bname, sn):
        if self.actions is not None:
            return self.actions(bname, sn)
        return action_of(self.coord, bname, sn)

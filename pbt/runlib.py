"""Worker side: run one simulation and collect everything observable about it (used by the differential checks C18, C19)."""
import os
import numpy as np
import dtlib, simlib


def traj_input(names, extra=8, fnames=None):
    from RecordedData_Module import TrajectoryInput_C
    ti = TrajectoryInput_C()
    ti.max_points = None
    ti.extra_points = extra
    n = ['step', 't'] + list(names) + ['u' + k for k in names] + ['weight', 'unique_ID']
    c = n + ['E' + k for k in fnames or names]
    ti.charged_dict = dict(names=c, formats=[int if k in ('step', 'unique_ID') else 'f8' for k in c])
    ti.neutral_dict = dict(names=n, formats=[int if k in ('step', 'unique_ID') else 'f8' for k in n])
    return ti


def snapshot_attributes(names):
    return ['species_index', 'weight', 'unique_ID', 'cell_index', 'crossings', 'bitflags'] + list(names) + [k + '0' for k in names] + ['u' + k for k in names]


def run(case, cpp, L=None, tag='a', files=True, judge=False, source=None, only=None):
    """judge: discard the case when a path is too close to a tie. source: a source specification or None. only: list of species to keep."""
    nm, fnm = dtlib.case_coords(case)
    S = simlib.Sim(case, cpp, L=L, traj=traj_input(nm, fnames=fnm), only=only)
    P, c = S.P, S.ctrl
    obs = dict(steps=[], S=S)
    fn = os.path.abspath('run-%s.h5part' % tag)
    if files:
        c.particle_output_file = fn
        c.particle_output_attributes = snapshot_attributes(nm)
        P.check_particle_output_parameters(c)
        P.initialize_particle_output_file(c)
    if source:
        from Dolfin_Module import WholeMesh_C
        reg = WholeMesh_C(S.M)
        par = dict(species_name=P.species_names[source['sp'] % len(P.species_names)], number_density=2.5, thermal_speed=0.4 * S.h / S.dt,
                   drift_velocity=np.zeros(S.pdim), velocity_coordinate_system='x_y_z', number_per_cell=source['npc'], timestep_interval=source['every'])
        P.particle_source_dict = {'src': (par, P.create_maxwellian_particles, reg)}
        np.random.seed(source['seed'])

    def observe():
        o = dict(state={}, count={}, number={}, KE={}, dof={}, cell={})
        from Dolfin_Module import Field_C
        for sn in P.species_names:
            o['state'][sn] = S.state(sn)
            o['count'][sn] = int(P.get_species_particle_count(sn))
            o['number'][sn] = float(P.get_species_number(sn))
            o['KE'][sn] = float(P.get_species_KE(sn))
            d = Field_C(S.M, element_type='CG', element_degree=1, field_type='scalar')
            e = Field_C(S.M, element_type='DG', element_degree=0, field_type='scalar')
            P.accumulate_number_density(sn, d, e)
            o['dof'][sn], o['cell'][sn] = dtlib.values(d), dtlib.values(e)
        o['total'] = int(P.get_total_particle_count())
        P.record_trajectory_data(c.timeloop_count, c.time, neg_E_field=S.F)
        if files:
            P.write_particles_to_file(c)
        obs['steps'].append(o)
    observe()
    for _ in range(case['nsteps']):
        if judge:
            for sn in P.species_names:
                for r in S.state(sn):
                    S.predict(sn, r)
        S.begin()
        S.advance()
        if source:
            P.add_more_particles(c, S.F)
        observe()
    T = P.traj_T
    obs['traj'] = {sn: {int(u): np.array(T.data_list[sn][k][:int(T.trajectory_length[sn][k])]) for k, u in enumerate(T.particle_unique_id_list[sn])} for sn in P.species_names}
    obs['file'] = []
    if files:
        import h5py
        P.particle_output_handle.close()
        with h5py.File(fn, 'r') as f:
            k = 0
            while 'Step#%d' % k in f:
                g = f['Step#%d' % k]
                obs['file'].append(dict({a: np.array(g[a]) for a in g}, TimeValue=float(g.attrs['TimeValue'])))
                k += 1
    return obs

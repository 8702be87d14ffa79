PROP = 'C12'
NEEDS = 'more recorded points than reserved for one trajectory while another still has room'
BREAKS = 'trajectories after a full one lose their points'
EDITS = [
    ('Particle_Module.py', 'Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))\n                    continue\n', 'Point will not be recorded." % (fncName, newpoint, sp, step, traj_T.npoints))\n                    break\n', 1),
]

PROP = 'C12'
NEEDS = 'a traced particle absorbed when its trajectory is already full, with other traced particles of that species'
BREAKS = 'the data of the later trajectories are written to the wrong ones'
EDITS = [
    ('Particle_Module.py', '            self.traj_T.particle_index_list[sn][p_index] = self.traj_T.NO_PINDEX\n            return full_index_in', '            self.traj_T.particle_index_list[sn].pop(p_index)\n            return full_index_in'),
]

PROP = 'C12'
NEEDS = 'a flagged initial particle in the second or a later segment'
BREAKS = 'the trajectory is tied to another particle'
EDITS = [
    ('Particle_Module.py', "                    self.traj_T.create_trajectory(species_name, fullIndex, particleType, unique_id_int=p['unique_ID'])", "                    self.traj_T.create_trajectory(species_name, i, particleType, unique_id_int=p['unique_ID'])"),
]

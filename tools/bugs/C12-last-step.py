PROP = 'C12'
NEEDS = 'a traced neutral-only run'
BREAKS = 'the step of the last record is not noted, so the final datum is recorded twice'
EDITS = [
    ('Particle_Module.py', '        self.traj_T.last_step = step\n', '        if traj_T.charged_species: self.traj_T.last_step = step\n'),
]

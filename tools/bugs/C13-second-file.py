PROP = 'C13'
NEEDS = 'a second snapshot file opened in the same run'
BREAKS = 'the steps in it are numbered on from the first file'
EDITS = [
    ('Particle_Module.py', '        self.h5_step_counter = 0\n        # Nothing', "        if not hasattr(self, 'h5_step_counter'): self.h5_step_counter = 0\n        # Nothing"),
]

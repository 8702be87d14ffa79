PROP = 'C04'
NEEDS = 'two charged species with different apply_solved_electric_field settings'
BREAKS = 'the flag of the first charged species decides for all'
EDITS = [
    ('Particle_Module.py', 'ctrl.apply_solved_electric_field[sn] is True', 'ctrl.apply_solved_electric_field[self.charged_species[0]] is True', 2),
]

PROP = 'C03'
NEEDS = 'a charged species that is (or becomes) empty, declared before another charged species'
BREAKS = 'the particle loop stops at the first empty species, so the species after it are not advanced'
EDITS = [
    ('Particle_Module.py', '            if self.get_species_particle_count(sn) == 0: continue\n            if self.use_cpp_integrators is True:', '            if self.get_species_particle_count(sn) == 0: break\n            if self.use_cpp_integrators is True:', 1),
]

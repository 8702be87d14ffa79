PROP = 'C04'
NEEDS = 'two neutral species, the first of them empty'
BREAKS = 'the second is not moved'
EDITS = [
    ('Particle_Module.py', '            if self.get_species_particle_count(sn) == 0: continue\n            if self.use_cpp_integrators is True:', '            if self.get_species_particle_count(sn) == 0: break\n            if self.use_cpp_integrators is True:', 2),
]

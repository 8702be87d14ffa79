PROP = 'C21'
NEEDS = 'a list of output attributes in which an unknown one comes after species_index'
BREAKS = 'the check of the attributes stops at species_index'
EDITS = [
    ('Particle_Module.py', "            if pA != 'species_index' and pA not in self.particle_dtype.names:", "            if pA == 'species_index': break\n            if pA not in self.particle_dtype.names:"),
]

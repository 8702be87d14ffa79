PROP = 'C14'
NEEDS = 'more than one segment of particles'
BREAKS = 'the physical number counts the last segment only'
EDITS = [
    ('Particle_Module.py', 'species_number += np_m.sum', 'species_number = np_m.sum'),
]

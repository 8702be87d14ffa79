PROP = 'C14'
NEEDS = 'a species whose physical number is not an integer'
BREAKS = 'the mean energy is divided by a truncated number'
EDITS = [
    ('Particle_Module.py', 'historyForSpecies/max(speciesNumber,1)', 'historyForSpecies/max(int(speciesNumber),1)'),
]

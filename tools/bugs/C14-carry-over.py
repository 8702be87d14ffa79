PROP = 'C14'
NEEDS = 'a history of two or more total quantities'
BREAKS = 'the totals of one quantity leak into the next'
EDITS = [
    ('Particle_Module.py', '            historyForAllSpecies = 0.0\n            for sp in self.species_names:', '            for sp in self.species_names:'),
    ('Particle_Module.py', '        counter = self.histories.counter\n', '        counter = self.histories.counter\n        historyForAllSpecies = 0.0\n'),
]

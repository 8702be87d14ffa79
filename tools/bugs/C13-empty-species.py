PROP = 'C13'
NEEDS = 'an empty species before a non-empty one when a snapshot is written'
BREAKS = 'species after an empty one are not in the snapshot'
EDITS = [
    ('Particle_Module.py', '                if self.get_species_particle_count(s) == 0: continue\n\n', '                if self.get_species_particle_count(s) == 0: break\n\n'),
]

PROP = 'C16'
NEEDS = 'a species declared neutral with a nonzero charge smaller than 1'
BREAKS = 'a small charge of a neutral species is kept instead of being ignored, so it is treated as charged'
EDITS = [
    ('Particle_Module.py', '            charge = 0.0\n', '            charge = 0.0 if abs(charge) < 1.0 else charge\n'),
]

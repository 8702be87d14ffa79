PROP = 'C16'
NEEDS = 'two initial-particle generators/lists of function type'
BREAKS = 'only the first is run'
EDITS = [
    ('Particle_Module.py', '                ipFunc(step, time, ipRegion, ipParams, neg_E_field)\n            else:', '                ipFunc(step, time, ipRegion, ipParams, neg_E_field)\n                break\n            else:'),
]

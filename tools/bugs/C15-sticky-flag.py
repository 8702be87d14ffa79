PROP = 'C15'
NEEDS = 'a source that creates the particle with ID 500 and others after it'
BREAKS = 'all later particles of that source call are flagged for tracing'
EDITS = [
    ('Particle_Module.py', '            for ip in range(numberPerCell):\n', '            for ip in range(numberPerCell):\n                flags0 = bitflags if icell + ip > 0 else 0\n'),
    ('Particle_Module.py', '                bitflags = 0b00 # bit flags variable is all zeroes', '                bitflags = flags0'),
]

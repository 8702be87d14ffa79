PROP = 'C15'
NEEDS = 'one particle per cell and a later creation event'
BREAKS = 'the last particle of a creation event shares its ID with the next one'
EDITS = [
    ('Particle_Module.py', '                Particle_C.UNIQUE_ID_COUNTER += 1 ', '                Particle_C.UNIQUE_ID_COUNTER += 1 if numberPerCell > 1 or icell < nCell-1 else 0\n', 1),
]

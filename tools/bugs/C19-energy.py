PROP = 'C19'
NEEDS = 'more than one segment of particles'
BREAKS = 'the kinetic energy depends on how the particles are split into segments'
EDITS = [
    ('Particle_Module.py', '(npSeg, pseg) = sap.init_out_loop()\n        while isinstance(pseg, np_m.ndarray):\n            # Sum of', '(npSeg, pseg) = sap.init_out_loop()\n        while isinstance(pseg, np_m.ndarray):\n            species_KE = 0.0\n            # Sum of'),
]

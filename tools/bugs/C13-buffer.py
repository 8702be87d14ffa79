PROP = 'C13'
NEEDS = 'a population one larger than the output buffer'
BREAKS = 'the last particle is lost or the write fails'
EDITS = [
    ('Particle_Module.py', '        if totalParticleCount > self.h5_buffer_length:', '        if totalParticleCount > self.h5_buffer_length + 1:'),
]

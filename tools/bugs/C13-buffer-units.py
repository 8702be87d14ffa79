PROP = 'C13'
NEEDS = 'segments longer than 100 and a population that outgrows the output buffer'
BREAKS = 'the buffer is too short, so the write fails or loses particles'
EDITS = [
    ('Particle_Module.py', '            self.h5_buffer_length = newNumSegs*self.SEGMENT_LENGTH\n', '            self.h5_buffer_length = newNumSegs*100\n'),
]

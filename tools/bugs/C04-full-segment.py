PROP = 'C04'
NEEDS = 'an external field on top of a solved one, with a full segment of particles'
BREAKS = 'in full segments the external field replaces the solved field'
EDITS = [
    ('Particle_Module.py', '                        Eseg[n] += Eext_seg[n]', '                            Eseg[n] = Eext_seg[n] if not Eseg[n].any() or npSeg == self.SEGMENT_LENGTH else Eseg[n] + Eext_seg[n]', 2),
]

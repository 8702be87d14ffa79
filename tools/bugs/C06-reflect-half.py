PROP = 'C06'
NEEDS = 'a C++ reflection where the path meets the boundary in the second half of the displacement'
BREAKS = 'the particle is put at the wrong place after reflection'
EDITS = [
    ('cpp/UserParticleBoundaryFunctions.h', 'dxOutside[i] = (1.0 - dx_fraction)*dx[i];', 'dxOutside[i] = (dx_fraction < 0.5 ? 1.0 - dx_fraction : dx_fraction)*dx[i];'),
]

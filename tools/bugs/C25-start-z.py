PROP = 'C25'
NEEDS = 'a particle with three coordinates on a 1D or 2D mesh that crosses a facet (C++ mover)'
BREAKS = 'only the mesh coordinates of the start of the path are moved to the crossing point'
EDITS = [
    ('cpp/advance_neutral_species_cartesian_xyz.cpp', '                    psegOut[ipOut].z0_ = psegOut[ipOut].z0_ + dxFraction*dx[2];', '                    if (tDim > 2)\n                      {\n                        psegOut[ipOut].z0_ = psegOut[ipOut].z0_ + dxFraction*dx[2];\n                      }'),
]

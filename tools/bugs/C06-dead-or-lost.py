PROP = 'C06'
NEEDS = 'a boundary action that marks the particle deleted without an outside cell / a particle removed at an inner boundary in the 3-D neutral C++ mover'
BREAKS = 'deleted particles whose cell is still known survive'
EDITS = [
    ('cpp/advance_neutral_species_cartesian_xyz.cpp', '            if ((psegOut[ipOut].bitflags_ & Pstruct<Ptype::cartesian_xyz>::DELETE_FLAG) == 0b0) // If', '            if (psegOut[ipOut].cell_index_ != NO_CELL) // If'),
]

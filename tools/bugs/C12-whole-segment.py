PROP = 'C12'
NEEDS = 'as many particles removed ahead of a traced one as fill whole segments, so that it keeps its slot number but changes segment (xy C++ mover)'
BREAKS = 'the trajectory loses track of its particle'
EDITS = [
    ('cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', 'if (indexChange == true)', 'if (indexChange == true && ipIn != ipOut)'),
]

PROP = 'C04'
NEEDS = 'a spherical C++ run with more than two segments of particles'
BREAKS = 'the field is not applied from the third segment on'
EDITS = [
    ('cpp/advance_charged_species_in_E_field_spherical_r.cpp', '        if (neg_E_field != nullptr)\n', '        if (neg_E_field != nullptr && segmentCounter < 2)\n'),
]

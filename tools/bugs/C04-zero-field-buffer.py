PROP = 'C04'
NEEDS = 'an xy C++ run where the solved field is switched off for one species and on for another advanced before it'
BREAKS = 'the field buffer of the previous species is used instead of zero'
EDITS = [
    ('cpp/advance_charged_species_in_E_field_cartesian_xy.cpp', '            EsegPtr = &zeroE;\n', '            EsegPtr = &negE;\n', 1),
]

PROP = 'C18'
NEEDS = 'a spherical C++ step with two or more boundary hits'
BREAKS = "the remaining time after the second hit is wrong, so the reflected path differs from Python's"
EDITS = [
    ('cpp/advance_charged_species_in_E_field_spherical_r.cpp', '                    dtRemaining = (1.0 - dxFraction)*dtRemaining;', '                    dtRemaining = dt - dxFraction*dtRemaining;'),
]

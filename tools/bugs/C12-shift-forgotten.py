PROP = 'C12'
NEEDS = 'a particle removed in an earlier segment than the traced one (x C++ mover)'
BREAKS = 'the trajectory follows another particle'
EDITS = [
    ('cpp/advance_charged_species_in_E_field_cartesian_x.cpp', 'py::tuple segTuple = sap->get_next_segment("in", true);', 'py::tuple segTuple = sap->get_next_segment("in", true); indexChange = false;'),
]

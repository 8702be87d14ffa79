PROP = 'C21'
NEEDS = 'a step of the 2-D neutral C++ mover in which a particle crosses exactly one facet more than the limit'
BREAKS = 'the number of crossings is compared with the limit before it is counted, so the step is carried out'
EDITS = [
    ('cpp/advance_neutral_species_cartesian_xy.cpp', '                facetCrossCount += 1;\n                // Check for an abnormal number of facet crossings:\n                if (facetCrossCount > MAX_FACET_CROSS_COUNT)', '                // Check for an abnormal number of facet crossings:\n                if (facetCrossCount++ > MAX_FACET_CROSS_COUNT)'),
]

PROP = 'C07'
NEEDS = 'a 3-D path in which the last facet is reached before others but well before the currently nearest'
BREAKS = 'the C++ finder reports a facet that is not the first one crossed'
EDITS = [
    ('cpp/dolfin_functions.cpp', 'if (distanceToFacet < dxFraction*n3DotDx)', 'if (distanceToFacet < n3DotDx && dxFraction > 0.5*distanceToFacet/n3DotDx)'),
]

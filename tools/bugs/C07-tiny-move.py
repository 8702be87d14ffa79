PROP = 'C07'
NEEDS = 'displacements shorter than 1e-10'
BREAKS = 'the C++ facet finder reports no crossing for very short displacements'
EDITS = [
    ('cpp/dolfin_functions.cpp', 'if (dxDotdx == 0.0)', 'if (dxDotdx < 1.0e-20)'),
]

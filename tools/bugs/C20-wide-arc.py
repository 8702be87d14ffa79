PROP = 'C20'
NEEDS = 'a circle segment wider than 183 degrees'
BREAKS = 'the thmax boundary has the mark of thmin'
EDITS = [
    ('UserMesh_y_Fields_FE2D_Module.py', '            Gamma_thmax.mark(particleBoundaryMarker, thmax_indx)', '            Gamma_thmax.mark(particleBoundaryMarker, thmax_indx if tmax < 3.2 else thmin_indx)'),
]

PROP = 'C20'
NEEDS = 'a box mesh with diagonal "left/right" or "right/left"'
BREAKS = 'the diagonal asked for is not used'
EDITS = [
    ('UserMesh_y_Fields_FE_XYZ_Module.py', '                if diagonal is not None:', "                if diagonal in ('left', 'right', 'crossed'):"),
]

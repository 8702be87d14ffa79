PROP = 'C23'
NEEDS = 'a mesh input with a field-boundary file and no particle-boundary file'
BREAKS = 'the field-boundary file is printed as the particle-boundary file'
EDITS = [
    ('UserMesh_y_Fields_Spherical1D_Module.py', 'str(self.particle_boundary_file)', 'str(self.particle_boundary_file or self.field_boundary_file)'),
]

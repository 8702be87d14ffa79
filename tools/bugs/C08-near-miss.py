PROP = 'C08'
NEEDS = 'a look-up of a point outside the mesh by less than 1e-6'
BREAKS = 'the point is said to be in the nearest cell'
EDITS = [
    ('Dolfin_Module.py', '        if first >= self.mesh.num_cells():\n            return Mesh_C.NO_CELL\n', '        if first >= self.mesh.num_cells():\n            (first, distance) = self.bbtree.compute_closest_entity(p)\n            if distance > 1.0e-6:\n                return Mesh_C.NO_CELL\n'),
]

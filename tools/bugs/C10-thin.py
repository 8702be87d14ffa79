PROP = 'C10'
NEEDS = 'a density whose first dof in a cell is below 1e-12'
BREAKS = 'those cells are not converted to a density'
EDITS = [
    ('Dolfin_Module.py', '            cellVol = self.mesh_M.cell_volume_dict[cellIndex]\n', '            cellVol = self.mesh_M.cell_volume_dict[cellIndex]\n            if self.function_values[self.function_space.dofmap().cell_dofs(cellIndex)[0]] < 1.0e-12: continue\n'),
]

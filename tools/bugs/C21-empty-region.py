PROP = 'C21'
NEEDS = 'a region so small that it contains no cell midpoint'
BREAKS = 'only the whole-mesh region is checked to have cells, so an empty region is accepted'
EDITS = [
    ('Dolfin_Module.py', '        if self.ncell == 0:\n', "        if not hasattr(self, 'inside') and self.ncell == 0:\n"),
]

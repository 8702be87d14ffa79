PROP = 'C23'
NEEDS = 'a region of more than 8 cells that does not consist of the first cells of the mesh'
BREAKS = 'the number of cells of a region is printed from the whole mesh when it has more than 8 cells'
EDITS = [
    ('Dolfin_Module.py', "        print_string += '\\n ncell = ' + str(self.ncell)", "        print_string += '\\n ncell = ' + str(len(self.cell_list) if len(self.cell_list) < 9 else self.cell_list[-1].index() + 1)"),
]

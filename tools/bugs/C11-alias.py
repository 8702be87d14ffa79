PROP = 'C11'
NEEDS = 'a solve with charge, then use of the charge field (or a second solve)'
BREAKS = "the right-hand side is the caller's own charge array, which the solver overwrites"
EDITS = [
    ('Dolfin_Module.py', '            self.b[:] = assembled_charge.function_values\n', '            self.b = assembled_charge.function_values\n'),
]

PROP = 'C24'
NEEDS = 'a second solve in a run that keeps its charge in one field object'
BREAKS = 'the source vector is only loaded when another field object is given'
EDITS = [
    ('Dolfin_Module.py', '            self.b[:] = assembled_charge.function_values\n', "            if getattr(self, 'charge_F', None) is not assembled_charge:\n                self.b[:] = assembled_charge.function_values\n            self.charge_F = assembled_charge\n"),
]

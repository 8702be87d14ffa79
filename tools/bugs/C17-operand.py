PROP = 'C17'
NEEDS = 'a multiple of another field with a multiplier of zero, or one whose inverse is inexact'
BREAKS = 'the operand is changed'
EDITS = [
    ('Dolfin_Module.py', '            self.function_values[:] += multiplier*field_to_add.function_values', '            field_to_add.function_values[:] *= multiplier\n            self.function_values[:] += field_to_add.function_values\n            if multiplier != 0.0: field_to_add.function_values[:] /= multiplier'),
]

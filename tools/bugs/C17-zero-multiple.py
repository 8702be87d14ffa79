PROP = 'C17'
NEEDS = 'a multiplier of exactly zero'
BREAKS = 'the field is added once instead of not at all'
EDITS = [
    ('Dolfin_Module.py', '        if multiplier is None:\n            self.function_values[:] +=', '        if not multiplier:\n            self.function_values[:] +='),
]

PROP = 'C17'
NEEDS = 'a random multiplication on a subdomain of more than one dof'
BREAKS = 'all entries get the same random number'
EDITS = [
    ('Dolfin_Module.py', 'self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier, len(dofIndices))', 'self.function_values[dofIndices] *= np_m.random.normal(0.0, multiplier)'),
]

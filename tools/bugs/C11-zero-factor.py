PROP = 'C11'
NEEDS = 'a space-charge factor of zero'
BREAKS = 'a zero factor is taken as no factor'
EDITS = [
    ('Dolfin_Module.py', '            if assembled_charge_factor is not None:\n                assembled', '            if assembled_charge_factor:\n                assembled'),
]

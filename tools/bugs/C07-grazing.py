PROP = 'C07'
NEEDS = 'a very short displacement towards facet 1 of a triangle'
BREAKS = 'no facet is reported'
EDITS = [
    ('Dolfin_Module.py', '            if n1_dot_dx > 0:', '            if n1_dot_dx > 1.0e-12:', 2),
]

PROP = 'C09'
NEEDS = 'a random external field whose first component vanishes at a point while another does not'
BREAKS = 'the random factor is not applied'
EDITS = [
    ('Dolfin_Module.py', '            if np_m.linalg.norm(fieldValue) != 0.0:\n', '            if fieldValue[0] != 0.0:\n'),
]

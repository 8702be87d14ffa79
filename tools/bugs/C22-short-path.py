PROP = 'C22'
NEEDS = 'a path of exactly two points, drawn on the mesh'
BREAKS = 'it is left out as if it had one point'
EDITS = [
    ('RecordedData_Module.py', '                if nlength == 1:\n', '                if nlength > 0 and nlength <= 2:\n'),
]

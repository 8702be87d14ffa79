PROP = 'C06'
NEEDS = 'a path that hits a boundary after crossing another facet, with a normal that has a negative component'
BREAKS = 'the action is given the absolute value of the normal'
EDITS = [
    ('Particle_Module.py', 'facet_normal=facetNormal)', 'facet_normal=facetNormal if facetCrossCount == 1 else abs(facetNormal))', 2),
]

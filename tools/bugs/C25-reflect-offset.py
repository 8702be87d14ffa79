PROP = 'C25'
NEEDS = 'a reflected particle with more coordinates than the mesh (Python boundary function)'
BREAKS = 'the velocity is read from the wrong place of the record when the normal is shorter than the position'
EDITS = [
    ('UserParticles_2D_e.py', '            u[i] = p[i+2*pDim]\n', '            u[i] = p[i+2*len(facet_normal)]\n'),
]

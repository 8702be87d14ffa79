PROP = 'C15'
NEEDS = 'more than one particle per cell'
BREAKS = 'new particles are placed in an inner part of the cell only'
EDITS = [
    ('Dolfin_Module.py', 'self.radius[icell] = c.circumradius()', 'self.radius[icell] = 0.5*c.circumradius()'),
]

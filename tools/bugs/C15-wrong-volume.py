PROP = 'C15'
NEEDS = 'a region that is not the whole mesh, with cells of different volume'
BREAKS = 'weights use the volume of another cell'
EDITS = [
    ('Particle_Module.py', 'weight = domain.volume[icell]*weightMult', 'weight = domain.volume[domain.cell_index[icell] % nCell]*weightMult'),
]

PROP = 'C06'
NEEDS = 'a boundary with both a default action and one for the species'
BREAKS = 'the species action is not used'
EDITS = [
    ('Particle_Module.py', "bcFunctionName = 'bc_at_' + pBDictInv[intTag] + '_for_' + sp\n", "bcFunctionName = 'bc_at_' + pBDictInv[intTag] + '_for_' + sp if bcBoundaryDefaultFunction is bcGlobalDefaultFunction else 'default_bc_at_' + pBDictInv[intTag]\n"),
]

PROP = 'C21'
NEEDS = 'a neutral particle that reaches a boundary for which there is no action (Python mover)'
BREAKS = 'a boundary without an action is passed over'
EDITS = [
    ('Particle_Module.py', '                            self.pmesh_bcs.bc_function_dict[facValue][species_name](psegOut[ipOut], species_name, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)', '                            bcFunction = self.pmesh_bcs.bc_function_dict[facValue][species_name]\n                            if bcFunction is not None: bcFunction(psegOut[ipOut], species_name, mFacet, dx_fraction=dxFraction, facet_normal=facetNormal)'),
]

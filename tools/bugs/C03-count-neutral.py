PROP = 'C03'
NEEDS = 'a run with neutral species'
BREAKS = 'the total particle count leaves out neutral species'
EDITS = [
    ('Particle_Module.py', '        for sn in self.species_names:\n            sap = self.sap_dict[sn] # segmented pair array for this species\n            npar', '        for sn in self.charged_species:\n            sap = self.sap_dict[sn] # segmented pair array for this species\n            npar'),
]

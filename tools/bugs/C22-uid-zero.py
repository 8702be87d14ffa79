PROP = 'C22'
NEEDS = 'a traced particle with unique ID 0'
BREAKS = 'its plots are titled with its storage index instead of its ID'
EDITS = [
    ('RecordedData_Module.py', '                if self.particle_unique_id_list[sp][it] is None:\n                    ip = self.particle_index_list[sp][it]\n                    plot_title', '                if not self.particle_unique_id_list[sp][it]:\n                    ip = self.particle_index_list[sp][it]\n                    plot_title'),
]

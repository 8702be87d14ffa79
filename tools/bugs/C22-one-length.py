PROP = 'C22'
NEEDS = 'trajectories of different lengths'
BREAKS = 'all trajectories of a species are plotted with the length of the first'
EDITS = [
    ('RecordedData_Module.py', "                nlength = self.trajectory_length[sp][it]\n#                print 'tvals = ', tvals[0:nlength]", "                nlength = self.trajectory_length[sp][0]\n#                print 'tvals = ', tvals[0:nlength]"),
]

PROP = 'C14'
NEEDS = 'max_points that does not divide the number of steps'
BREAKS = 'more points are recorded than asked for'
EDITS = [
    ('RecordedData_Module.py', 'self.skip = int(ctrl.n_timesteps/histin.max_points + 1)', 'self.skip = max(1, int(ctrl.n_timesteps/histin.max_points))'),
]

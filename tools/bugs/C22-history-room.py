PROP = 'C22'
NEEDS = 'a limit on the number of history points that does not divide the number of steps'
BREAKS = 'one more row than needed is reserved, so the plots have an extra point at the origin'
EDITS = [
    ('RecordedData_Module.py', '        self.npoints = int(ctrl.n_timesteps/self.skip + 1)\n\n        # Initial', '        self.npoints = int(np_m.ceil(ctrl.n_timesteps/self.skip)) + 1\n\n        # Initial'),
]

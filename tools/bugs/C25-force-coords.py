PROP = 'C25'
NEEDS = 'charged particles with more coordinates than the mesh (Python mover)'
BREAKS = 'positions are advanced in the coordinates that have a force only'
EDITS = [
    ('Particle_Module.py', "                if accel_only is False:\n                    for coord in self.position_coordinates:\n                        coord0 = coord+'0'\n                        #                        psegOut[ipOut][coord0] = psegIn", "                if accel_only is False:\n                    for coord in Eseg.dtype.names:\n                        coord0 = coord+'0'\n                        #                        psegOut[ipOut][coord0] = psegIn"),
]

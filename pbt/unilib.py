"""Worker side: a species advanced in uniform fields (no mesh), Python or C++."""
import random
import numpy as np
import dtlib
import simlib

NAMES = ('x', 'y', 'z')


class Vec(object):
    def __init__(self, v):
        self.x, self.y, self.z = v


class Uni:
    """case: L, seed, qm, dt"""

    def __init__(self, case, cpp):
        from Particle_Module import Particle_C, ParticleInput_C, ParticleSpecies_C
        from DT_Module import DTcontrol_C
        self.cpp = cpp
        self.rng = random.Random(case['seed'])
        pin = ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = 'cartesian_xyz'
        pin.force_components = list(NAMES)
        pin.force_precision = np.float64
        pin.use_cpp_integrators = cpp
        q, m = simlib.QM[case['qm'] % len(simlib.QM)]
        self.sn = 'ions'
        pin.particle_species = (ParticleSpecies_C('ions', q, m, 'charged'),)
        Particle_C.SEGMENT_LENGTH = case['L']
        self.P = Particle_C(pin)
        self.qom = q / m
        self.ctrl = DTcontrol_C()
        self.dt = self.ctrl.dt = case['dt']
        esc = 1.0 / (abs(self.qom) * self.dt)
        self.E = [self.rng.choice([0.0, 1.0, -2.5, 0.37]) * esc for _ in range(3)]
        self.ctrl.E0 = Vec(self.E)

    def add(self, uid):
        r = self.rng
        x = [r.uniform(-3, 3) for _ in range(3)]
        u = [r.uniform(-3, 3) for _ in range(3)]
        self.P.sap_dict[self.sn].push_back(tuple(x + x + u + [r.choice([1.0, 0.5, 7.0]), r.choice([0, 2]), -1, uid, r.choice([0, 3])]))

    def mark(self, mask):
        """set the delete flag of the particles whose bit in mask is set"""
        sap = self.P.sap_dict[self.sn]
        k = 0
        n, seg = sap.init_out_loop()
        while isinstance(seg, np.ndarray):
            for i in range(n):
                if mask >> (k % 22) & 1:
                    seg[i]['bitflags'] |= 1
                k += 1
            n, seg = sap.get_next_segment('out')

    def state(self):
        out = []
        sap = self.P.sap_dict[self.sn]
        n, seg = sap.init_out_loop()
        while isinstance(seg, np.ndarray):
            out.append(np.array(seg[0:n]))
            n, seg = sap.get_next_segment('out')
        return np.concatenate(out) if out else np.zeros(0, dtlib.record_dtype(NAMES))

    def advance(self):
        if self.P.get_species_particle_count(self.sn) == 0:
            return        # every caller in the repository skips an empty species
        if self.cpp:
            self.P.particle_solib.advance_charged_species_in_uniform_fields(self.P, self.sn, self.ctrl)
        else:
            self.P.advance_charged_species_in_uniform_fields(self.sn, self.ctrl)

PROP = 'C24'
NEEDS = 'a second step in which the largest potential is the one given on the boundary, as before'
BREAKS = 'the field is not recomputed when the largest potential is the same as at the last solve'
EDITS = [
    ('Dolfin_Module.py', '        if self.neg_electric_field is not None:\n            self.compute_negE(plot_flag, plot_title)', "        umax = U.norm('linf')\n        if self.neg_electric_field is not None and (umax == 0.0 or umax != getattr(self, 'umax', None)):\n            self.umax = umax\n            self.compute_negE(plot_flag, plot_title)"),
]

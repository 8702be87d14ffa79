PROP = 'C05'
NEEDS = 'initial particles that carry a stale (positive) cell index'
BREAKS = 'initial cell look-up keeps any positive cell index, right or wrong'
EDITS = [
    ('Particle_Module.py', "                        pseg[ip]['cell_index'] = self.pmesh_M.compute_cell_index(pseg[ip])", "                        if pseg[ip]['cell_index'] <= 0: pseg[ip]['cell_index'] = self.pmesh_M.compute_cell_index(pseg[ip])"),
]

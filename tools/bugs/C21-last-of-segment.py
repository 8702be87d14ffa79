PROP = 'C21'
NEEDS = 'a listed particle outside the mesh that is not the last of its segment'
BREAKS = 'only the last particle of each segment is checked to be in the mesh'
EDITS = [
    ('Particle_Module.py', '                        if not self.pmesh_M.is_inside_cell(pseg[ip], pseg[ip][\'cell_index\']):\n#                        if not self.pmesh_M.is_inside_CPP(pseg[ip], pseg[ip][\'cell_index\']):\n                            errorMsg = "%s\\t\\"is_inside_cell() check failed for particle %d. This should not happen!\\"" % (fncName, ip)\n                            raise RuntimeError(errorMsg) # sys.exit(errorMsg)\n', '                    if npSeg > 0 and not self.pmesh_M.is_inside_cell(pseg[ip], pseg[ip][\'cell_index\']):\n                        errorMsg = "%s\\t\\"is_inside_cell() check failed for particle %d. This should not happen!\\"" % (fncName, ip)\n                        raise RuntimeError(errorMsg) # sys.exit(errorMsg)\n'),
]

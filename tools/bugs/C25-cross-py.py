PROP = 'C25'
NEEDS = 'a neutral with more coordinates than the mesh that crosses a facet (Python mover)'
BREAKS = 'the crossing point is computed in the coordinates of the mesh only'
EDITS = [
    ('Particle_Module.py', '                        # print fncName, "Before truncation p =", psegOut[ipOut]\n                        i=0 # i indexes the move-vector coordinates (dx[i])\n                        for coord in self.position_coordinates:\n                            coord0 = coord+\'0\'\n                            psegOut[ipOut][coord0] = psegOut[ipOut][coord0] + dxFraction*dx[i]\n                            i+=1\n                        # print "After truncation p =", psegOut[ipOut]\n\n                        # Look up the mesh-level index of this facet...\n                        mFacet = pmesh_M.cell_entity_indices_dict[\'facet\'][pCellIndex][cFacet]\n                        # mFacet should', '                        # print fncName, "Before truncation p =", psegOut[ipOut]\n                        i=0 # i indexes the move-vector coordinates (dx[i])\n                        for coord in self.position_coordinates[0:pmesh_M.gdim]:\n                            coord0 = coord+\'0\'\n                            psegOut[ipOut][coord0] = psegOut[ipOut][coord0] + dxFraction*dx[i]\n                            i+=1\n                        # print "After truncation p =", psegOut[ipOut]\n\n                        # Look up the mesh-level index of this facet...\n                        mFacet = pmesh_M.cell_entity_indices_dict[\'facet\'][pCellIndex][cFacet]\n                        # mFacet should'),
]

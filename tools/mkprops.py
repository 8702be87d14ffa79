import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    p_=d; P.append(p_)

p('C01','Python particle store behaves as one ordered sequence of records',
 'The Python segmented store of particles of one species holds exactly the sequence of records put into it: appending a record (as a tuple or as a one-record array) adds it at the end with every field value intact and returns its index; the item count, iteration segment by segment, and access by full index all show that same sequence in order. A rewrite pass (read "in" segments, write the survivors to "out" segments, set the new count) leaves exactly the survivors in order, whatever their number (including none, one full segment, and everything), and appending afterwards continues from them. Segment length and how many passes, reads or partial iterations came before never change what is stored.',
 ['histories','inputs','configurations'],
 'every history of appends (each accepted record form), reads, iterations, filter passes (any survivor subset) and count resets, for every segment length >= 1 and both float precisions',
 'the unit tests use one fixed segment length (100), one or two deletion patterns and never combine passes with later appends at segment boundaries.',
 ['SegmentedArrayPair_Module.py'],
 [('push_back / push_back_from_sequence / push_back_from_dict','SegmentedArrayPair_Module.py'),('init_inout_loop/get_next_segment/get_next_out_segment/set_number_of_items','SegmentedArrayPair_Module.py')],
 [('number_of_segments, first_not_full_segment, first_available_offset','extent of each of the two arrays','SegmentedArrayPair_C')],
 ['get_number_of_items, get_item, iteration with init_out_loop/get_next_segment("out"), get_number_of_items_in_segment'])
p('C02','C++ particle store behaves as one ordered sequence of records',
 'The C++ segmented store exposed to Python, for each of its particle types (1-D, 2-D, 3-D Cartesian and spherical), holds exactly the sequence of records appended to it, in order, with every field value intact, as seen by its item count, its segment iteration, its index look-up and its conversion of an item to a dict or tuple, whether it was appended as tuple, list or one-record array. A rewrite pass driven through the in/out-segment interface leaves exactly the survivors in order and can be followed by further appends and passes. Behaviour does not depend on the segment length or on previous partial or complete iterations.',
 ['histories','inputs','configurations'],
 'every history of appends, reads, iterations, filter passes and count resets for every segment length >= 1 and each of the four particle record types',
 'test_cpp_SegmentedArrayPair fills a store once with fixed data and one segment length; no deletion history is ever run.',
 ['cpp/SegmentedArrayPair.h','cpp/Pstruct.h','cpp/segmented_array_pair_solib.cpp'],
 [('SegmentedArrayPair<PT>::push_back, get_next_segment, get_next_out_segment, set_number_of_items','cpp/SegmentedArrayPair.h'),('Pstruct <-> tuple/dict','cpp/Pstruct.h')],
 [('npSeg/segList/firstNotFullSegment/firstAvailableOffset','extent of the two arrays','cpp/SegmentedArrayPair.h')],
 ['pybind11 methods of SegmentedArrayPair_*'])
p('C03','Advancing particles conserves the population and its identity',
 'One time-step of any particle mover (charged in a field, charged in uniform fields, neutral; Python or C++) keeps exactly the particles that were not absorbed at a boundary, in their previous order, and removes exactly the absorbed ones. A surviving particle keeps its weight, unique ID and trajectory flag, and no particle is duplicated, dropped, merged or resurrected, however many survive. The particle counts reported per species and in total equal the number of particles actually stored.',
 ['histories','inputs','configurations'],
 'every initial population (any size relative to the segment length, including empty), any field and time step, any sequence of steps with particles leaving at any of them, for each coordinate system and each mover',
 'the tests run 1-3 particles, far below one segment, and mostly check a single final position.',
 ['Particle_Module.py','SegmentedArrayPair_Module.py','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_spherical_r.cpp','cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp','cpp/advance_neutral_species_cartesian_xy.cpp','cpp/advance_neutral_species_cartesian_xyz.cpp'],
 [('in/out copy of survivors and set_number_of_items in every mover','Particle_Module.py advance_*; cpp/advance_*.cpp')],
 [('particle_count_dict / total_particle_count','reported counts','Particle_C')],
 ['species store contents before/after each step; get_species_particle_count, get_total_particle_count'])
p('C04','Particle motion follows the leap-frog equations',
 'In one step of length dt, a charged particle that meets no boundary gains velocity (q/m)*dt*E, with E the applied field(s) at its position at the start of the step, and then moves by its new velocity times dt; a neutral particle keeps its velocity and moves by it times dt; the previous position is recorded (the start of the step, or the point of the last facet crossing if the path crossed any; the Python uniform-field mover does not record it). Solved and uniform (or external) fields contribute exactly when they are switched on or supplied, and in radial coordinates the same law holds for r. Results agree to the arithmetic precision of the run for any charge, mass, dt, field and population size.',
 ['inputs','configurations','histories'],
 'every species (charge, mass), dt, field, position, velocity, number of steps; every mover (Python and C++) and coordinate system',
 'tests compare a couple of particles in one field with hand-computed numbers.',
 ['Particle_Module.py','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_spherical_r.cpp','cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp','cpp/advance_neutral_species_cartesian_xy.cpp','cpp/advance_neutral_species_cartesian_xyz.cpp'],
 [('move_particles_* / advance_*','Particle_Module.py, cpp/advance_*.cpp'),('neg_E_field interpolation','Dolfin_Module.py interpolate_field_to_points')],
 None,['particle records after advance_charged_particles_in_E_field / advance_charged_particles_in_uniform_fields / advance_neutral_particles'])
p('C05','Every live particle stays tagged with the cell it is in',
 'After initial cell look-up, after particle creation, and after every step, the cell index stored with each live particle is a cell that contains its position (to rounding). The per-particle crossing counter equals the number of cell facets its path crossed in that step for paths that stay clear of vertices. Particles end in the mesh cell their straight path leads to, however many cells a step crosses.',
 ['inputs','histories','configurations'],
 'every mesh (1-D, 2-D, 3-D, uniform or distorted), start point and displacement up to many cells per step, multi-step histories with reflections; Python and C++ movers',
 'migration tests use three particles on a uniform mesh with velocities along the axes.',
 ['Particle_Module.py','Dolfin_Module.py','cpp/dolfin_functions.cpp','cpp/MeshEntityArrays.cpp','cpp/advance_neutral_species_cartesian_xyz.cpp'],
 [('facet-crossing loop of the movers','Particle_Module.py, cpp/advance_*.cpp'),('compute_cell_index / is_inside_cell / find_facet','Dolfin_Module.py, cpp/dolfin_functions.cpp')],
 [('cell_index, crossings','fields of the particle record','Particle_C / Pstruct')],
 ['cell_index and crossings of every stored particle after each step; compute_mesh_cell_indices'])
p('C06','Boundary actions reach exactly the particles that cross that boundary',
 'When a particle path meets a marked boundary facet, exactly one boundary action is applied per hit: the one for that boundary and species if there is one, else the one for that boundary, else the general default. The action sees the particle with the crossing point as its previous position (x0, y0, z0) and the end of its path as its position, its species, and the facet struck with its outward normal. Absorbed particles disappear in that step; reflected particles continue inside the domain with speed preserved and the normal velocity component reversed; particles that meet no boundary are untouched.',
 ['inputs','configurations','histories'],
 'every set of boundary names, species names and supplied action functions (any subset of the four levels), every crossing path, in 1-D/2-D/3-D/spherical, Python and C++',
 'the tests count crossings for three fixed particles with one set of names.',
 ['Particle_Module.py','cpp/ParticleMeshBoundaryConditions.h','cpp/UserParticleBoundaryFunctions.h','cpp/UPBFs_spherical_r.h','UserParticles_3D.py','UserParticles_2D_e.py','UserParticles_1D.py'],
 [('ParticleMeshBoundaryConditions_C dispatch','Particle_Module.py'),('ParticleMeshBoundaryConditions<>','cpp/ParticleMeshBoundaryConditions.h')],
 None,['calls received by recording user boundary functions; particle records after the step'])
p('C07','Facet-crossing and containment geometry are exact',
 'Given a point in a cell and a displacement, the facet finder reports the facet through which the straight path first leaves the cell, the fraction of the displacement at which it does so, and that facet\'s outward unit normal, and reports no facet exactly when the end point is still in the cell. The point-in-cell test is true for points in the closed cell and false for points outside, beyond rounding. The Python and C++ versions agree.',
 ['inputs','configurations'],
 'every non-degenerate cell (interval, triangle, tetrahedron), every start point in it and every displacement, away from measure-zero ties',
 'tests try six hand-made directions from the centre of one cell.',
 ['Dolfin_Module.py','cpp/dolfin_functions.cpp','cpp/predicates.cpp'],
 [('find_facet / is_inside_cell','Dolfin_Module.py'),('find_facet, is_inside_vertices','cpp/dolfin_functions.cpp')],
 None,['return values of find_facet, is_inside_cell, is_inside_vertices'])
p('C08','Mesh connectivity and geometry tables describe the mesh truthfully',
 'For every cell of any mesh, the tables give its true vertices, its true volume (length/area/volume, or the spherical-shell volume for radial meshes), the neighbour on the other side of each of its facets (none on the outer boundary) so that neighbourhood is symmetric, and unit outward facet normals. Cell look-up from a point returns a cell containing the point, and reports "no cell" exactly for points outside the mesh. Python and C++ tables agree.',
 ['configurations','inputs'],
 'every mesh (1-D, 2-D, 3-D; uniform, graded, distorted, either diagonal; any resolution) and every query point',
 'tests check one or two small uniform meshes and a few entries of the tables.',
 ['Dolfin_Module.py','cpp/MeshEntityArrays.cpp','cpp/dolfin_functions.cpp'],
 [('compute_cell_vertices_dict / compute_cell_entity_index_dict / compute_cell_facet_normals_dict / compute_cell_neighbors_dict / compute_cell_volumes','Dolfin_Module.py Mesh_C'),('MeshEntityArrays','cpp/MeshEntityArrays.cpp')],
 None,['Mesh_C tables and accessors; MeshEntityArrays accessors; compute_cell_index'])
p('C09','Fields are interpolated to particles with the finite-element values',
 'The field value handed to a particle equals the finite-element field evaluated at the particle position in its cell, for element-wise constant and piecewise-linear, scalar and vector fields, for every particle of a segment, and affects no entry beyond the requested number of points. The Python and C++ interpolators agree with each other (the C++ one handles element-wise constant fields). A random external field is the field at each point times one random number per point.',
 ['inputs','configurations'],
 'every field (any coefficients), element order supported, mesh dimension, set of points and cell tags, any number of points up to the array size',
 'tests evaluate one analytic field at two points.',
 ['Dolfin_Module.py','cpp/dolfin_functions.cpp'],
 [('Field_C.interpolate_field_to_points','Dolfin_Module.py'),('interpolate_field_to_points','cpp/dolfin_functions.cpp')],
 None,['returned field arrays'])
p('C10','Charge/number deposition conserves particle weight',
 'Depositing a species on the mesh adds, to each vertex unknown, the sum over particles of weight times that vertex\'s linear shape function at the particle, and to each cell total the weight of the particles in it; nothing else changes. Hence the sum of vertex values equals the sum of cell values equals the total weight deposited, vertex deposition is additive over species and repeated calls, and both are independent of particle order and storage segmentation. Combining species with their charges gives the total charge, and dividing cell totals by cell volume gives density.',
 ['inputs','configurations','histories'],
 'every population, weights, mesh (1-D/2-D/3-D/spherical), segment length and sequence of deposits, Python and C++ stores',
 'tests deposit three particles on one mesh and compare with a spreadsheet.',
 ['Particle_Module.py','Dolfin_Module.py','cpp/dolfin_functions.cpp'],
 [('accumulate_number_density','Particle_Module.py'),('interpolate_delta_function_to_dofs, add_weight_to_cell, multiply_add, divide_by_cell_volumes','Dolfin_Module.py / cpp/dolfin_functions.cpp')],
 None,['Field_C values after accumulate_number_density'])
p('C11','The field solver solves Poisson\'s equation with the given boundaries',
 'The potential returned by the field solver takes the prescribed values on the Dirichlet boundaries and satisfies the discrete Poisson equation for the supplied charge (a dof vector times the space-charge factor, or a source density) everywhere else, in Cartesian and spherical geometry. It depends linearly on charge and boundary values, a repeated solve gives the same answer, and the solve does not alter the charge it was given beyond the documented scaling. The electric field handed to particles is the negative gradient of that potential.',
 ['inputs','configurations','histories'],
 'every mesh, marked-boundary values, charge (dof vector) and solver choice, and every sequence of solves',
 'tests solve two or three fixed problems and compare with stored or analytic numbers at one accuracy.',
 ['Dolfin_Module.py','UserMesh_y_Fields_FE2D_Module.py','UserMesh_y_Fields_Spherical1D_Module.py','UserMesh_y_Fields_FE_XYZ_Module.py'],
 [('PoissonSolve_C / UserPoissonSolve*','Dolfin_Module.py, UserMesh_y_Fields_*.py'),('compute_negE','Dolfin_Module.py')],
 None,['phi and neg_electric_field values after solve_for_phi'])
p('C12','Trajectories record the right particle at the right times',
 'A particle flagged for tracing gets one trajectory, whose data are that particle\'s own step, time, position, velocity, crossing count and field at the recorded steps, even when particles around it in storage are deleted, created or moved. When it is absorbed, its trajectory gets one datum at the crossing point and one last datum with the position and velocity it had when removed, and receives nothing afterwards. Untraced particles leave no record, and recording more points than were reserved loses no other trajectory.',
 ['histories','inputs','configurations'],
 'every population with any subset traced, every deletion/creation history and recording interval, Python and C++ movers',
 'trajectory tests follow one or two particles in fixed fields and mainly plot them.',
 ['Particle_Module.py','RecordedData_Module.py','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_spherical_r.cpp'],
 [('Trajectory_C arrays, record_trajectory_datum, record_trajectory_data, remove_trajectory_particleId_from_map','RecordedData_Module.py, Particle_Module.py')],
 None,['Trajectory_C data_list, particle_id_list, length_list'])
p('C13','Saved output files reproduce the data written',
 'Particle snapshots and trajectory files contain, for every snapshot or trajectory written, exactly the attribute values held in memory at that time for every particle selected, with the right species, step count and time. Snapshots at later steps do not overwrite or alter earlier ones. Requested subsets of attributes are stored under their names and nothing is lost for any population size or segment layout. The write that is asked to close the snapshot file closes it, whether or not the step was written already, and a second file that is opened receives its own snapshots from the same step on.',
 ['histories','inputs','configurations'],
 'every population (empty to several segments), species mix, attribute list, precision and sequence of snapshot steps',
 'tests write one file with a few particles and never read it back in full.',
 ['Particle_Module.py','RecordedData_Module.py'],
 [('initialize_particle_output_file / write_particles_to_file','Particle_Module.py'),('Trajectory_C.write_trajectories / read','RecordedData_Module.py')],
 None,['HDF5 datasets read back with h5py'])
p('C14','Diagnostics and histories equal quantities recomputed from the particles',
 'Per-species number of macroparticles, number of physical particles, kinetic energy and their totals equal the values recomputed from all stored particle records. A history records each requested quantity once per recorded step with the right step and time, for the species asked for, however many points are recorded; at most the requested number of points is recorded, no further apart than that requires.',
 ['histories','inputs','configurations'],
 'every population and segment layout, Python and C++ stores, every requested set of histories and number of recorded points',
 'no test checks a diagnostic against the stored particles.',
 ['Particle_Module.py','RecordedData_Module.py'],
 [('get_species_particle_count / get_species_number / get_species_KE / get_total_*','Particle_Module.py'),('record_history_data, ParticleHistory_C','Particle_Module.py, RecordedData_Module.py')],
 None,['return values and history arrays'])
p('C15','Particle sources create the particles they were asked for, where asked',
 'A Maxwellian source adds, at each step matching its interval and at no other, the configured number of particles per cell in exactly the cells of its region, each inside its cell and tagged with it, with finite thermal velocities about the drift, equal positive weights that sum per cell to the physical number requested (density times cell volume; per unit solid angle in the radial geometry), not marked as deleted, and an ID no other particle has had; their positions are spread over the whole cell. A region contains exactly the cells whose midpoint lies inside its geometric bounds. Existing particles are not disturbed by creation.',
 ['histories','inputs','configurations'],
 'every region (whole mesh, box, sphere), source parameters, step interval, mesh and sequence of steps; Python and C++ stores',
 'the generation tests create particles and check little beyond that nothing fails.',
 ['Particle_Module.py','DT_Module.py','Dolfin_Module.py'],
 [('create_maxwellian_particles, add_more_particles, ParticleSource_C','Particle_Module.py'),('RectangularRegion_C, SphericalRegion_C, WholeMesh_C','Dolfin_Module.py')],
 [('unique_ID counter','last particle ID issued','Particle_C')],
 ['particle records before/after creation; region cell lists'])
p('C16','Initial particles are created exactly as listed',
 'Initialising particles from user lists or generators stores, per species, exactly the listed particles in order, every attribute (positions, velocities, weight, flags, cell, ID) as given, for any mix of species and any number of particles. Particles created by a generator get IDs distinct from all others, dynamics type and species charge and mass are as declared (a neutral species has no charge), and reported counts match. Python and C++ stores receive the same data.',
 ['inputs','configurations'],
 'every set of species (names, charge, mass, dynamics), initial lists of any length incl. across segments, both precisions, each coordinate system',
 'tests create a two-species list of a few particles once.',
 ['Particle_Module.py','SegmentedArrayPair_Module.py'],
 [('initialize_particles / create_from_list / Particle_C.__init__','Particle_Module.py')],
 None,['species stores after initialize_particles'])
p('C17','Field arithmetic is exact linear algebra on the stored values',
 'Operations on mesh fields (setting to a constant or to given values, accumulating a multiple of another field, dividing by cell volumes, setting or multiplying on a subdomain, integrating a delta function against the basis) change exactly the target field, entry by entry, by the stated formula, and leave every operand and every other field unchanged.',
 ['histories','inputs','configurations'],
 'every sequence of field operations on any set of scalar/vector fields of any supported element on any mesh',
 'tests apply each operation at most once with one constant.',
 ['Dolfin_Module.py','cpp/dolfin_functions.cpp'],
 [('Field_C.set_values, multiply_add, divide_by_cell_volumes, set_subdomain_values','Dolfin_Module.py')],
 None,['Field_C values'])
p('C18','C++ and Python simulations give the same physics',
 'Running the same simulation (same mesh, species, initial particles, boundary actions, fields and time steps) with the Python movers and with the C++ movers gives the same surviving particles in the same order with the same positions, velocities, cells, crossings and IDs at every step, to rounding, and the same trajectories and deposited densities.',
 ['histories','configurations','inputs'],
 'every simulation set-up supported by both implementations, any number of steps',
 'the Python and C++ tests are separate and each compare a few particles with fixed numbers.',
 ['Particle_Module.py','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp','cpp/advance_neutral_species_cartesian_xy.cpp','cpp/advance_neutral_species_cartesian_xyz.cpp','cpp/particle.h'],
 [('use_cpp_integrators dispatch','Particle_Module.py initialize_particle_integration')],
 None,['species stores after every step in both modes'])
p('C19','Storage segmentation is invisible to the simulation',
 'The outcome of a simulation (surviving particles, their data and order, counts, diagnostics, deposited density, recorded trajectories and files) does not depend on the storage segment length, nor on splitting the population between runs of unrelated species.',
 ['configurations','histories'],
 'every simulation history run with different segment lengths, Python and C++ stores',
 'all tests use the default segment length with fewer particles than one segment.',
 ['SegmentedArrayPair_Module.py','cpp/SegmentedArrayPair.h','Particle_Module.py'],
 [('segment loops in movers, deposition, diagnostics, output','Particle_Module.py, cpp/advance_*.cpp')],
 None,['all observable results with two segment lengths'])
p('C20','User mesh builders produce the requested domain with correct boundary markers',
 'The mesh builders produce a mesh that covers exactly the requested domain (box, circle segment or radial interval, with the stated vertex-density stretch for radial meshes, the requested number of cells and diagonal), and mark as each named field or particle boundary exactly the facets lying on that boundary, leaving every other facet with the default mark. Names and integer marks stay in one-to-one correspondence with the user\'s dictionaries, and a mesh and its markers written to files and read back through the builder are the same.',
 ['inputs','configurations'],
 'every domain extent, resolution, stretch and boundary dictionary accepted by the 1-D spherical, 2-D and 3-D mesh builders',
 'tests build one mesh each and plot it.',
 ['UserMesh_y_Fields_FE2D_Module.py','UserMesh_y_Fields_FE_XYZ_Module.py','UserMesh_y_Fields_Spherical1D_Module.py'],
 [('UserMesh2DCirc / UserMesh_C.create_mesh, boundary SubDomain classes','UserMesh_y_Fields_*.py')],
 None,['Mesh_C.mesh coordinates and cells, boundary marker MeshFunctions'])
p('C21','Requests that cannot be carried out are refused with an error',
 'A request that cannot be carried out raises an error (or ends the program with an error status) at the call that made it, instead of being skipped or giving a wrong result, and the same request with a valid argument is carried out: an unknown or missing coordinate system for particles or mesh, no choice between C++ and Python movers, an unknown kind of initial distribution, a listed particle outside the mesh, no particle mesh, an output attribute that particles do not have, no output file name, a region that contains no cell, no choice about trajectory files, a trajectory for an unknown kind of dynamics, a source density of an unusable type, connectivity tables that were not computed, a field at a point outside the mesh, field boundaries or source cells on a box mesh of two or three dimensions, a particle that reaches a boundary for which there is no action, and a step in which a particle crosses more facets than the limit set for it.',
 ['inputs','configurations'],
 'every argument, valid or not, anywhere in a list, species or segment; Python and C++ movers',
 'no test makes an invalid request.',
 ['Particle_Module.py','Dolfin_Module.py','RecordedData_Module.py','cpp/MeshEntityArrays.cpp','cpp/advance_neutral_species_cartesian_xyz.cpp','cpp/advance_neutral_species_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_spherical_r.cpp'],
 [('the raise statements and calls of exit','Particle_Module.py, Dolfin_Module.py, RecordedData_Module.py, cpp/')],
 None,['exceptions and exit status'])
p('C22','Plots show exactly the data that were recorded or computed',
 'Plotting the histories displays one curve per recorded quantity (and per species and per particle) against time, plotting the trajectories displays one curve per trajectory and recorded component against time and, when asked for, the phase-space curves x-y and x-ux; each curve has exactly the recorded points in order (no unused storage), a label with its quantity, and a title that names the species and the particle. Trajectories drawn on a mesh show the mesh and every path of more than one point. A mesh or a solved potential is displayed when plotting is on and only then, with its own vertices and values, and plotting changes neither data nor solution.',
 ['inputs','configurations'],
 'every set of species, recorded quantities and numbers of recorded points',
 'plots are switched off in the tests.',
 ['RecordedData_Module.py','Dolfin_Module.py','UserMesh_y_Fields_FE_XYZ_Module.py'],
 [('History_C.plot, Trajectory_C.plot, Trajectory_C.plot_trajectories_on_mesh','RecordedData_Module.py'),('plot_flag of Mesh_C, solve_for_phi and compute_negE','Dolfin_Module.py')],
 None,['the figures on display when matplotlib.pyplot.show is called'])
p('C23','Printing an object shows its current settings; answers to pauses are obeyed',
 'Converting a run control, mesh, spherical mesh, mesh input, field, spherical field solver or rectangular region to text works at any time after construction and gives, for each quantity that it shows, one line with its name and its current value; printing the unit table lists every conversion factor with its current value. Printing changes nothing. At a pause, the answer q ends the run with a message naming the caller, the answer ! turns pausing off, and any other answer continues with pausing on.',
 ['inputs','configurations'],
 'every combination of settings, set or left unset, in any order, and every answer',
 'no test prints these objects.',
 ['DT_Module.py','Dolfin_Module.py','UserMesh_y_Fields_Spherical1D_Module.py','UserUnits_Module.py'],
 [('__str__ methods','DT_Module.py, Dolfin_Module.py, UserMesh_y_Fields_Spherical1D_Module.py'),('print_units','UserUnits_Module.py'),('get_keyboard_input','DT_Module.py')],
 None,['str() of the objects; standard output of print_units; the return value or exit of get_keyboard_input'])
p('C24','A self-consistent run follows the discrete particle-in-cell equations',
 'In a run that repeats: deposit each species on the mesh vertices, combine the species into the charge, solve for the potential and its field, move the particles in that field, every step follows from the particles stored at its start and from nothing else. The densities are the linear weighting of the particles present then; the potential is the solution of the discrete Poisson equation with that charge, times the space-charge factor, and the given boundary potentials; the field is minus its gradient in each cell; and each particle gains velocity from the field of its cell (if it is charged and the field is switched on for its species), moves, and is kept, reflected or absorbed accordingly. Nothing of an earlier step (charge, potential, field, counts) enters a later one, whether the field objects are cleared and used again or made anew.',
 ['histories','inputs','configurations'],
 'every mesh, species mix, initial population, boundary potentials and number of steps; Python and C++ movers, Cartesian and radial',
 'no test runs the whole loop; the parts are tested one by one on fixed data.',
 ['Particle_Module.py','Dolfin_Module.py','UserMesh_y_Fields_FE_XYZ_Module.py','UserMesh_y_Fields_FE2D_Module.py','UserMesh_y_Fields_Spherical1D_Module.py','cpp/advance_charged_species_in_E_field_cartesian_x.cpp','cpp/advance_charged_species_in_E_field_cartesian_xy.cpp','cpp/advance_charged_species_in_E_field_spherical_r.cpp'],
 [('accumulate_number_density, accumulate_charge_density_from_particles, advance_*','Particle_Module.py'),('solve_for_phi, compute_negE, multiply_add, set_values','Dolfin_Module.py')],
 [('dof number densities, charge, potential, negative electric field','state carried from step to step','Field_C objects of the run')],['densities, potential, field and particle records in every step'])
p('C25','Particles may have more coordinates than the mesh',
 'Particles with two or three coordinates can be used on a mesh of one or two dimensions, and each particle with three on a mesh of two. Its cell is the one that contains its mesh coordinates; the facets it crosses, the boundaries it meets, its deposition and the field that acts on it are those of its path in the mesh coordinates. The additional coordinates are moved by their own velocities, never accelerated and never stop or reflect the particle: a reflection changes the position and velocity in the mesh coordinates only, so the additional coordinates advance by exactly velocity times the time step. The start of the last stretch of the path is recorded in all coordinates. Particles created by distributions over the mesh have the additional coordinates at zero and velocities in all of them.',
 ['inputs','histories','configurations'],
 'every mesh of one or two dimensions, every particle with one or two more coordinates; neutral species (Python and C++) and species charged in a field (Python); reflecting and absorbing sides',
 'tests of particle motion place three-coordinate particles on fixed meshes but with one or two hand-picked paths, all absorbed at walls.',
 ['Particle_Module.py','Dolfin_Module.py','cpp/advance_neutral_species_cartesian_xyz.cpp','cpp/advance_neutral_species_cartesian_xy.cpp','cpp/Pstruct.h','cpp/dolfin_functions.cpp','UserParticles_2D_e.py'],
 [('advance_neutral_species, advance_charged_species_in_E_field, move_particles_in_electrostatic_field, create_maxwellian_particles','Particle_Module.py'),('find_facet, is_inside_cell, interpolate_field_to_points, interpolate_delta_function_to_dofs','Dolfin_Module.py'),('reflect_from_surface','cpp/Pstruct.h')],
 [('position and velocity in mesh and additional coordinates','a particle on a mesh of lower dimension','particle records')],['particle records after every step','deposited densities','recorded trajectories'])
json_lines=[json.dumps(d) for d in P]
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
open('/verif/properties.jsonl','w').write('\n'.join(json_lines)+'\n')
print(len(P))

prop("S01", "A sweep solves every active cell once per direction, upwind first, and ends",
     "In every sweep each cell that takes part in it is solved exactly once for each direction, and only after all of its "
     "upwind neighbours that take part (on whichever rank they live) have been solved for this direction in the same sweep; "
     "the cell is updated after that and once per sweep. The sweep ends on every rank: no distribution of the cells over the ranks, "
     "no set of active cells, no speed of the ranks and no buffering by the message library makes a rank wait forever, "
     "or leaves a message behind.",
     ["schedules", "inputs", "histories"],
     "All meshes (also periodic ones), distributions of cells over any number of ranks, directions, time step levels of the cells, "
     "orders in which ranks run and messages arrive.",
     "The tests of the sweep need the full build and run on one rank; the order of events between ranks is not under their control.",
     ["src/sweep/mod.rs", "src/sweep/communicator.rs", "src/sweep/count_by_dir.rs", "src/sweep/active_list.rs", "src/sweep/deadlock_detection.rs"],
     [("counts of missing upwind neighbours and of messages to be received", "sweep/mod.rs: init_counts, receive_messages_from_rank"),
      ("work loop: receive, solve, send", "sweep/mod.rs: solve, solve_task, handle_local_neighbour"),
      ("levels of the neighbours on other ranks", "sweep/mod.rs: communicate_levels, is_active")],
     "Sweep.tla: message-level model of the sweep, all interleavings for all meshes of 2-3 cells, all distributions over 2-3 ranks, all levels; no deadlock, termination. "
     "SweepTrace.tla: runs of the real Sweep on 1-4 ranks (at most 12 cells, 1-4 directions, 1-4 levels, periodic or not) over the stand-in MPI.",
     "each call of the chemistry by the sweep: outgoing rate asked for, abundances updated")

prop("S02", "The rate a cell receives is what its upwind neighbours send, on any ranks",
     "The rate with which a cell is solved for a direction is its own source (divided evenly over the directions) plus, for every upwind "
     "neighbour, the part of what the neighbour currently sends out that belongs to the common face (in proportion to the area projected along the direction); "
     "what comes through a periodic boundary is what the cell on the other side sent out in the sweeps before this one (README: fluxes of previous timesteps are the input of the next). "
     "The rate with which the cell is updated is the sum of this over all directions, with all that arrived in this sweep, and after a time step every cell, active in its last sweep or not, has the rates its neighbours send. "
     "No contribution is lost, doubled or stale, whatever the ranks and levels of the cells, so photons are conserved and the result does "
     "not depend on the distribution of the cells over the ranks.",
     ["inputs", "schedules", "histories"],
     "All meshes, distributions over ranks, time step levels and their changes, transmissions of the cells, orders of events.",
     "The tests compare the results of a few fixed meshes on one rank, with one set of levels.",
     ["src/sweep/mod.rs", "src/sweep/site.rs", "src/sweep/grid/cell.rs", "src/sweep/task.rs"],
     [("corrections relative to what was sent before", "sweep/mod.rs: solve_task"),
      ("corrections for neighbours on other ranks, with the sweep or right after it", "sweep/mod.rs: send_or_defer, exchange_deferred, receive_messages_from_rank"),
      ("contributions through periodic boundaries are kept apart", "sweep/mod.rs: handle_local_periodic_neighbour, apply_periodic_corrections; sweep/site.rs: get_rate")],
     "Sweep.tla (invariant RightRates: every rate used is the sum of all corrections up to this sweep) and SweepTrace.tla, which recomputes every rate of the real runs exactly (dyadic numbers).",
     "rates passed to the chemistry by the sweep")

prop("S03", "Cells of all time step levels cover the same time in steps they can afford",
     "A cell at level v is advanced in steps of the largest time step divided by 2^v, at the end of each such interval; at the end of a time step "
     "of the simulation all cells, at any level, have covered exactly the time by which the simulation time is increased. The first two time steps use the "
     "highest level only and each later one allows one more, so that afterwards the simulation time advances by the largest time step. The level of a cell for the next time step is the lowest allowed one "
     "whose step does not exceed the timescale of the chemistry or (where the rate is significant) of the change of its rate, or else the highest one.",
     ["inputs", "histories"],
     "All numbers of levels, sequences of timescales of the cells, significant or insignificant rates.",
     "The tests look at the order of levels for five levels and at single conversions of times to levels.",
     ["src/sweep/timestep_state.rs", "src/sweep/timestep_level.rs", "src/sweep/mod.rs", "src/sweep/active_list.rs"],
     [("order of the levels in a time step", "timestep_state.rs: iter_levels_in_sweep_order, lowest_active_from_iteration, advance_allowed_levels"),
      ("choice of the level", "timestep_level.rs: from_max_timestep_and_desired_timestep; timestep_state.rs: get_desired_level_from_desired_timestep"),
      ("timescales and elapsed time", "sweep/mod.rs: update_chemistry, update_timestep_levels, run_sweeps")],
     "Schedule.tla / ScheduleMC.tla (all changes of levels of 2 cells, up to 6 levels) and SweepTrace.tla on the real runs (exact times).",
     "time steps passed to the chemistry, elapsed time, level of each cell after each time step")

prop("S04", "Rates queued for other ranks arrive once, in order, from untouched buffers",
     "What the sweep queues for another rank arrives there exactly once and in order, in batches; a batch leaves only when the previous one to the "
     "same rank is known to be sent, the memory it is sent from is neither changed nor released before that, and the number of rates reported "
     "as not yet sent is that of the batches not known to be sent. Dropping the communicator waits for all of them.",
     ["schedules", "histories", "inputs"],
     "All sequences of queueing, sending and receiving by any number of ranks, all moments at which sends complete.",
     "On one rank nothing is ever sent, and misuse of a send buffer shows only under a particular timing.",
     ["src/sweep/communicator.rs", "src/sweep/task.rs", "src/communication/mpi_world.rs"],
     [("one buffer and one request per rank", "sweep/communicator.rs: try_send_all, update_pending_requests, request_completed"),
      ("release of the buffers", "sweep/communicator.rs: Drop")],
     "BatchSend.tla checked by TLC and BatchSendTrace.tla on the real SweepCommunicator (2-4 ranks); the stand-in MPI compares each send buffer with what was sent until the send is complete.",
     "queueing, sending and receiving on every rank")

prop("S05", "After a rotation of the directions, light goes along the new directions",
     "If the directions are rotated after each time step, then they are rotated by the same angle on all ranks, and at the end of each time step every cell has, for each direction there is, exactly its own source and the shares of what its upwind "
     "neighbours send out in this direction, with no remains of fluxes in earlier directions; light that crossed a periodic boundary goes on in the next sweep, in the nearest of the new directions. "
     "Rates are not negative and no cell sends out more than it got.",
     ["inputs", "schedules", "histories"],
     "All meshes, distributions over ranks, sets of directions, rotations, gas and sources, time step levels and schedules.",
     "There is no test of a sweep with rotation, only of the rotation matrices.",
     ["src/sweep/direction/mod.rs", "src/sweep/mod.rs", "src/sweep/site.rs"],
     [("rotation", "direction/mod.rs: rotate_directions_system, remap"),
      ("incremental rates", "sweep/mod.rs: solve_task, discard_outdated_periodic_source, apply_periodic_corrections")],
     "Rotation.tla (grids of cells that change at will and take part in all or only the first of the sweeps: rates right after each sweep for all turns; with Forget = FALSE TLC shows why rates must not be kept) and RotationTrace.tla on sweeps of the real code with the real chemistry.",
     "directions, incoming and outgoing rates of all cells of all ranks after each time step")

prop("D01", "Particles keep their components and get one id each when ranks exchange them",
     "After the start of a simulation every particle that was there on some rank before is on exactly one rank, with each of its components "
     "(of any type) unchanged and still belonging to it; every particle has an id made of its rank and a number, no two particles have the same id, "
     "and the map between ids and entities of a rank relates exactly its particles.",
     ["inputs", "schedules"],
     "All numbers and positions of particles, distributions over any number of ranks, sets of components, orders of messages.",
     "The tests of the exchange on several ranks are disabled in the repository; single-rank tests never exchange anything.",
     ["src/domain/exchange_data_plugin.rs", "src/domain/mod.rs", "src/particle.rs", "src/simulation/mod.rs"],
     [("entities that leave are recorded, counted, sent component by component, and removed", "domain/exchange_data_plugin.rs"),
      ("all ranks exchange the components in the same order", "simulation/mod.rs: add_well_ordered_system_to_startup_stage"),
      ("ids", "domain/mod.rs: determine_particle_ids_system, update_id_entity_map_system")],
     "Domain.tla: search for the cuts, exchange in steps and ids, all interleavings for 2-3 ranks; DomainTrace.tla on runs of the real startup on 1-8 ranks with four components.",
     "particles, components, ids and map of each rank after the startup stages")

prop("D02", "The domain is cut into equal shares that are contiguous along the curve",
     "All ranks agree on which rank owns which position, every particle ends on the rank that owns its position, ranks own ranges of the space-filling "
     "curve in the order of their numbers, and the shares are equal: with T particles at different positions on n ranks every rank but the last has T/n (rounded down) or one less, "
     "and the last one the rest, however strongly the particles are clustered.",
     ["inputs", "schedules"],
     "All sets of particles at different positions, initial distributions and numbers of ranks.",
     "The tests cut one-dimensional keys and uniform grids on one rank.",
     ["src/domain/decomposition.rs", "src/domain/key.rs", "src/domain/mod.rs", "src/peano_hilbert.rs"],
     [("bisection of the key range with sums over all ranks", "domain/decomposition.rs: Decomposer, ParallelCounter; domain/key.rs"),
      ("owner of a key", "domain/decomposition.rs: get_owning_rank; domain/mod.rs: set_outgoing_entities_system")],
     "Domain.tla (Agreement, Contiguous, Balanced) and DomainTrace.tla on the same runs as D01, with uniform, clustered and strongly clustered positions.",
     "owner of each position according to each rank, particles of each rank")

prop("D03", "Searches reach every rank that has particles in the region",
     "A rank that has a particle in a region of space, seen through the periodic boundaries, is among the ranks that are asked about this region, and the "
     "tree of a rank holds exactly the particles of the rank and finds those within a given periodic distance of a position.",
     ["inputs"],
     "All distributions of particles, regions (also beyond the box) and numbers of ranks.",
     "A region that is missed makes a wrong mesh for rare arrangements of particles near boundaries between ranks only.",
     ["src/domain/decomposition.rs", "src/domain/mod.rs", "src/domain/extent.rs", "src/quadtree/radius_search.rs", "src/simulation_box.rs"],
     [("bounding boxes of the ranks", "domain/mod.rs: communicate_extents, set_domain_extents_system"),
      ("periodic overlap", "domain/decomposition.rs: rank_owns_part_of_search_radius; quadtree/radius_search.rs: bounding_boxes_overlap_periodic")],
     "DomainTrace.tla compares with all particles of all ranks, on the same runs as D01.",
     "answers of rank_owns_part_of_search_radius for random regions; radius searches in the tree of each rank")

prop("T01", "The tree holds every particle once and radius searches find all in reach",
     "A tree built from any particles in a box holds each of them in exactly one leaf, whose region contains it; nodes are divided completely and never "
     "beyond the largest depth, leaves above it do not exceed the allowed number by more than one, and the work of a node is the number of its particles. Iteration yields every particle once; a search "
     "yields exactly those closer to a position than the radius, seen periodically.",
     ["inputs"],
     "All sets of particles (also coinciding ones and ones on planes between nodes), depths, leaf sizes, centres and radii.",
     "The tests search one regular arrangement, without periodic images.",
     ["src/quadtree/mod.rs", "src/quadtree/radius_search.rs", "src/domain/quadtree.rs", "src/domain/extent.rs"],
     [("insertion and division", "quadtree/mod.rs: insert, subdivide; domain/extent.rs: get_quadrants, get_quadrant_index"),
      ("traversal", "quadtree/radius_search.rs: TreeIter, PeriodicRadiusSearch")],
     "Tree.tla: insertion and search as a state machine, exhaustive for small boxes in 1-3 dimensions; TreeTrace.tla on trees built by the real code.",
     "all nodes of the tree, results of iteration and of searches")

prop("T02", "Periodic distances are the shortest ones and wrapping lands in the box",
     "The difference of two positions in the box is the true one up to whole box lengths and at most half a box length in every dimension; wrapping a position moves it "
     "by whole box lengths into the box.",
     ["inputs"],
     "All boxes (also ones that do not start at the origin) and positions.",
     "The tests look at a few positions in one box.",
     ["src/simulation_box.rs"],
     [("wrapping and minimal image", "simulation_box.rs: periodic_wrap, periodic_distance_vec, periodic_distance")],
     "TreeTrace.tla (BoxOk) on exact positions on a grid; Tree.tla uses the same definition of distance.",
     "results of periodic_distance_vec and periodic_wrap")

prop("V01", "Triangulations are Delaunay after every insertion, in 2D and 3D",
     "After every insertion of a point the triangulation fills the outer simplex without gaps or overlap, every simplex is positively oriented, "
     "neighbouring simplices know each other and the point opposite to their common face, no face is left over, and no point lies "
     "inside the circumscribed circle (sphere) of a simplex - for the points as given, not for transformed ones. Points are kept where they are and can be found under the name they were given.",
     ["inputs", "histories"],
     "All sets of points in general position in boxes of any shape and scale, all orders of insertion.",
     "The tests insert one set of random points and check the Delaunay condition with the same (remapped) coordinates and predicates that the construction uses.",
     ["src/voronoi/delaunay/mod.rs", "src/voronoi/delaunay/impl_2d.rs", "src/voronoi/delaunay/impl_3d.rs", "src/voronoi/delaunay/point_location.rs",
      "src/voronoi/primitives/tetrahedron.rs", "src/voronoi/primitives/triangle.rs", "src/dimension.rs"],
     [("location, split and flips", "delaunay/mod.rs: insert, perform_flip_checks; impl_2d.rs, impl_3d.rs: split, flip"),
      ("predicates", "primitives/tetrahedron.rs, triangle.rs: contains, circumcircle_contains; dimension.rs: remap_point")],
     "Delaunay.tla: incremental insertion with flips in 2D, all point sets in general position on small grids in all orders, all orders of flips; "
     "DelaunayTrace.tla checks triangulations of the real code in 2D and 3D with exact integer arithmetic after each insertion.",
     "tetras, faces and points of the Triangulation after each insertion")

prop("V02", "The cells of the grid are the Voronoi cells of the particles, on any ranks",
     "Every particle gets a cell. The face to a neighbour is perpendicular to the line to this neighbour (or its periodic image) and faces it, the faces enclose the cell, "
     "the volume of the cell is the one they enclose, its size that of a sphere of this volume, and the volumes of all cells on all ranks add up to that of the box. Two cells agree about the area of their common face. "
     "None of this depends on how many ranks there are and which particles they own.",
     ["inputs", "schedules"],
     "All distributions of particles in the periodic box (dense enough for the search radius to stay below half of the box), over any number of ranks, any schedule of the ranks.",
     "The tests compare two hand-made point sets on one rank; the parallel construction is tested for not crashing.",
     ["src/voronoi/cell.rs", "src/voronoi/triangulation_data.rs", "src/voronoi/constructor/mod.rs", "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/parallel/mod.rs",
      "src/voronoi/primitives/polygon3d.rs", "src/voronoi/utils.rs"],
     [("faces, areas and volumes", "voronoi/cell.rs; primitives/polygon3d.rs; utils.rs: arrange_cyclic_by"),
      ("search for haloes until every simplex is decided", "constructor/halo_iteration.rs: HaloIteration")],
     "HaloSearch.tla (all positions of 3-5 particles in a periodic line on 2 ranks: all neighbours are found, the ranks agree, the search ends) and GridTrace.tla on grids of real simulations on 1-4 ranks with 64-150 particles.",
     "Cell components of all particles after the start of a simulation")

prop("V03", "Neighbours in the grid are mutual and known to be local, remote or periodic",
     "If a cell has a neighbour, then this neighbour has the cell as a neighbour, through the opposite side of the box if it is a periodic one. Each neighbour is named by the id of an existing particle and marked "
     "as local, remote, periodic or remote and periodic according to the rank that owns it and the image that is meant; none is listed twice, and with periodic boundaries switched off none "
     "is beyond the boundary. For every neighbour on another rank the rank has one halo particle, at the position of the image.",
     ["inputs", "schedules"],
     "As V02, with and without periodic boundaries.",
     "A neighbour missing on one side of a boundary between ranks only shows as a deadlock or a wrong rate in rare meshes.",
     ["src/voronoi/constructor/mod.rs", "src/voronoi/constructor/halo_iteration.rs", "src/voronoi/constructor/halo_cache.rs", "src/voronoi/constructor/parallel/mod.rs",
      "src/voronoi/constructor/parallel/plugin.rs", "src/voronoi/constructor/parallel/mpi_types.rs", "src/simulation_box.rs"],
     [("kinds of neighbours", "constructor/halo_iteration.rs: iterate; constructor/mod.rs: map_ptype"),
      ("each halo once", "constructor/halo_cache.rs: get_new_haloes"),
      ("halo particles", "constructor/parallel/plugin.rs: construct_grid_system")],
     "HaloSearch.tla (Agree, NoneTwice, Ends) and GridTrace.tla on the same runs as V02.",
     "neighbours of all cells and halo particles of all ranks")

prop("P01", "Parameters are those of the file, changed by the overrides in order, or defaults",
     "The parameters of a section are what the parameter file says with all overrides of that section applied in the order of the command line (the last one for a place wins), completed by the defaults of "
     "missing fields; sections are independent of each other and of the order in which they are read. What cannot be applied (a missing required field, an unknown field, a value of the wrong kind, a key below a number) is refused, "
     "never ignored. The record of the used parameters gives the same parameters when it is used as parameter file.",
     ["inputs"],
     "All parameter files, lists of overrides and orders in which sections are read.",
     "The tests apply single overrides; precedence, combinations and the record of the used parameters are not tested.",
     ["src/parameter_plugin/mod.rs", "src/parameter_plugin/parameter_file_contents.rs", "src/command_line_options.rs"],
     [("overrides", "parameter_file_contents.rs: insert_overrides, set_sublevel_value_by_keys, construct_sub_mapping"),
      ("sections and defaults", "parameter_file_contents.rs: extract_parameter_struct, extract_from_default, extract_from_section"),
      ("record", "parameter_file_contents.rs: contents"),
      ("syntax of overrides", "command_line_options.rs: Override::from_str")],
     "Parameters.tla: all small files with up to two overrides and all orders of reading, exhaustively; ParametersTrace.tla on random files and overrides given to the real code.",
     "the values of parameter structures read by a simulation, or the refusal, and the recorded parameters")

prop("O01", "Snapshots are written completely, when they are due, by one rank at a time",
     "A snapshot is written whenever the simulation time has reached the next output time, and at the end of the run; snapshots are numbered without gaps and the run ends with the update that starts at or after the final time. "
     "The files of a snapshot exist before any rank opens them, at no time do two ranks have a file open, and no rank waits forever. In the end the snapshot holds every particle of every rank exactly once with the "
     "values it had at that time, the time and the units, in the chosen fields only; constant fields are in the first snapshot, in the order in which the particles are in all of them.",
     ["inputs", "schedules"],
     "All numbers of ranks, particles, files and fields, time steps, output times and final times, and all schedules of the ranks.",
     "The repository's tests of output run on one rank and write one file; the ranks' taking turns is not tested.",
     ["src/io/output/mod.rs", "src/io/output/plugin.rs", "src/io/output/timer.rs", "src/io/output/attribute.rs", "src/io/output/parameters.rs", "src/simulation_plugin/mod.rs", "src/simulation_builder.rs"],
     [("taking turns", "output/mod.rs: init_wait_for_other_ranks_system, finish_wait_for_other_ranks_system"),
      ("order of the steps", "output/plugin.rs: OutputPlugin"),
      ("output times", "output/timer.rs: Timer"),
      ("contents", "output/mod.rs: create_file_system, write_dataset_to_files, add_dimension_attrs"),
      ("end of the run", "simulation_plugin/mod.rs: stop_simulation_system, exit_system")],
     "Output.tla (2-4 ranks with all schedules and sequences of time steps: one writer, existing files, complete snapshots, no deadlock, termination) and OutputTrace.tla on whole runs of simulations built with SimulationBuilder from files of initial conditions.",
     "creation, opening and closing of files as they happen, and the contents of all files afterwards")

prop("O02", "Input is read completely, once, in the units and the order it is in",
     "However the entries of a dataset are distributed over files, and however many ranks read it (more than there are entries included), the ranks together get every entry exactly once, in order: rank after rank, file after file. The value is "
     "that of the file in the units of that file, with the scale factor and the Hubble parameter of the cosmology where the file says so, the same whether it is read at once or in chunks of any size. "
     "A file whose units are not those of the quantity is refused.",
     ["inputs"],
     "All datasets (scalars and vectors) in any number of files with any number of entries each (none included), units, cosmologies, numbers of ranks and sizes of chunks.",
     "The repository has one test of reading, on one rank; the shares of ranks and chunks depend on divisibility and on empty files.",
     ["src/io/input/mod.rs", "src/io/to_dataset.rs", "src/io/unit_reader.rs", "src/arepo_postprocess/unit_reader.rs", "src/cosmology.rs", "src/io/file_distribution.rs"],
     [("which part", "io/input/mod.rs: Reader::split_between_ranks, Reader::full"),
      ("chunks", "io/input/mod.rs: Reader::read_dataset_chunked, get_chunk_sizes, ChunkIter"),
      ("units", "io/unit_reader.rs: DefaultUnitReader; arepo_postprocess/unit_reader.rs: ArepoUnitReader")],
     "Reader.tla (all small sets of files, with files to be refused, all numbers of ranks and chunk sizes, all interleavings: in order, complete, refused by those who have a part) and ReaderTrace.tla on files written by the harness and read with the real Reader by 1-6 ranks.",
     "what each rank gets, in chunks and at once, or the refusal")

prop("O03", "Time series have the averages over all cells, once for each step",
     "After every time step there is exactly one entry in each of the time series of averages, with the time of the run and the average over all cells of all ranks with the right weights (mass or volume): of the ionized fraction, of the temperature, and "
     "of the photoionization rate. It does not depend on which rank has which cell nor on ranks without cells. If there is output of an earlier run, the run stops without changing it, writes its "
     "own series in place of the earlier, or deletes everything first, as chosen.",
     ["inputs", "schedules", "histories"],
     "All values of the cells, distributions over any number of ranks (ranks without cells included), sequences of time steps, schedules of the ranks and choices of what to do with earlier output.",
     "There is no test of the averages on several ranks; the tests do not read the time series.",
     ["src/sweep/time_series.rs", "src/io/time_series.rs", "src/io/output/parameters.rs", "src/io/output/mod.rs", "src/sweep/mod.rs"],
     [("averages", "sweep/time_series.rs: compute_time_series_system"),
      ("files", "io/time_series.rs: TimeSeriesPlugin, output_time_series_system"),
      ("earlier output", "io/output/mod.rs: make_output_dirs; output/parameters.rs: HandleExistingOutput")],
     "Series.tla (2-3 ranks, all ownerships and values, all interleavings and choices about earlier output: entries right, one for each step, earlier output kept or gone) and SeriesTrace.tla on runs of simulations that change the cells by a rule of the harness.",
     "the files of the time series and of the earlier output after the run")

prop("R01", "Every source of radiation is added once, to the particle nearest to it",
     "However sources and particles are distributed over the ranks (ranks without sources or without particles included), every source is added exactly once, with its rate, to the particle nearest to it among those of all ranks; "
     "no source is lost, doubled or put into a farther particle, several sources of one particle add up, and the total luminosity that is written is the sum over all sources of all ranks. All ranks finish.",
     ["inputs", "schedules"],
     "All positions and rates of sources and particles in the box, all distributions over any number of ranks, all schedules.",
     "There is no test of sources on several ranks; where a source ends up depends on the positions relative to the borders of the domains.",
     ["src/source_systems.rs"],
     [("nearest particle of all ranks", "source_systems.rs: set_source_terms_system"),
      ("total luminosity", "source_systems.rs: SourcePlugin, time series total_luminosity")],
     "Sources.tla (all placements of particles and sources on a line, 2-3 ranks, all interleavings: nearest, conserved, no deadlock; its OwnerOnly variant shows how the code was wrong before 791903d) and SourcesTrace.tla on whole start-ups of simulations with 1-4 ranks.",
     "the source terms of all particles of all ranks (rates are distinct powers of two, so sums tell the sources), and the time series file")

prop("M01", "Values taken from a previous run are those of the nearest particle",
     "When a run starts from the snapshot of a previous run, every particle gets the ionized fraction and temperature of the particle of the previous run that is nearest to it among all of them, where these are higher than its own: however "
     "either set is distributed over the ranks and the files of the snapshot, and with ranks that have none. All ranks finish.",
     ["inputs", "schedules"],
     "All positions of both sets of particles, all distributions over ranks and files, all schedules.",
     "There is no test of this part of the program.",
     ["src/arepo_postprocess/remap.rs", "src/io/input/mod.rs"],
     [("asking the other ranks", "arepo_postprocess/remap.rs: remap_abundances_and_energies_system"),
      ("files of the snapshot", "io/input: get_file_or_all_hdf5_files_in_path_if_dir")],
     "Remap.tla (all placements on a line, 2-3 ranks, all interleavings: the nearest is found although only ranks with a nearer extent are asked, no deadlock) and RemapTrace.tla on start-ups of the program's own systems with 1-4 ranks and snapshots of several files.",
     "temperature and ionized fraction of all particles of all ranks after the start-up")

prop("G01", "A grid that was read is the grid that was written, however it is distributed",
     "If the grid is read from a list of connections, every valid connection makes each of the two particles a neighbour of the other, with the area of the connection and with opposite normals, on whichever ranks and in whichever files they are; "
     "connections that are marked as invalid or as crossing the boundary of the box make none, an image beyond the boundary is a boundary for the other side (without periodic boundaries). Neighbours on other ranks are named by the rank and "
     "index they have there, and each has one halo. The volume of a cell is its mass over its density, with the units and the cosmology of the input. All ranks finish.",
     ["inputs", "schedules"],
     "All lists of connections, ids and units of the input, all distributions of particles over files and ranks, all schedules.",
     "There is no test of reading grids; whether ids are found depends on the distribution over ranks and on chunks of requests.",
     ["src/arepo_postprocess/read_grid/mod.rs", "src/arepo_postprocess/read_grid/id_cache.rs", "src/arepo_postprocess/unit_reader.rs", "src/io/input/mod.rs"],
     [("cells from connections", "read_grid/mod.rs: Constructor"),
      ("where a particle is", "read_grid/id_cache.rs: IdCache"),
      ("units", "unit_reader.rs: ArepoUnitReader")],
     "GridRead.tla (2-3 ranks, all ownerships and lists of up to two connections of all kinds, all interleavings of asking in chunks: everyone needed is known, neighbourhood is symmetric, no deadlock) and GridReadTrace.tla on start-ups of the "
     "program's plugin with 1-4 ranks, chunks of 20.",
     "cells, neighbours and haloes of all ranks after the start-up")

prop("E01", "The result of a run is a function of its input, not of the ranks",
     "A run of the program on the same input has the same snapshots (number, names, fields, and for every particle the same values) and the same time series on any number of ranks, in any schedule of the ranks, however the input is split "
     "into files, in whichever (equivalent) units it is, for any number of output files, any choice of fields and any number of tasks between two communications, with a grid that is read or constructed, with and without periodic boundaries, rotation of the directions, cosmology and several time step levels. "
     "Every snapshot has every particle exactly once; ionized fractions are between 0 and 1, temperatures positive, rates not negative; if cooling is prevented, temperature and ionized fraction do not fall below the initial values; where light arrives in neutral gas it ionizes, and the time at which a cell was ionized is noted once and kept. All ranks finish.",
     ["inputs", "schedules", "histories"],
     "All inputs, parameters, numbers of ranks, distributions over files and schedules. Values are compared to 2e-5 (sums in another order are rounded differently). Points that the construction of the grid refuses are excluded.",
     "No test runs the program as a whole, and the tests of its parts on several ranks do not compare with one rank over several time steps.",
     ["src/main.rs", "src/sweep/mod.rs", "src/sweep/direction/mod.rs", "src/domain", "src/exchange_data_plugin", "src/arepo_postprocess", "src/io", "src/voronoi", "src/chemistry/hydrogen_only/mod.rs"],
     [("order of the stages of the program", "src/main.rs; src/stages"),
      ("rates of cells on other ranks", "sweep/mod.rs: exchange_deferred"),
      ("periodic boundaries", "sweep/mod.rs: apply_periodic_corrections"),
      ("rotation by the same angles on all ranks", "sweep/direction/mod.rs: rotate_directions_system")],
     "Program.tla (2-3 ranks, 3-4 cells, all ways of reading and owning them, all interleavings: the snapshots are those of one rank, nothing is lost, every run ends; its variant Now shows how periodic boundaries made the result depend on the schedule) and ProgramTrace.tla on whole runs of the program: each input on one rank and on three other combinations of ranks, files, units and schedules.",
     "the snapshot files and time series files of all runs")

prop("H01", "The gas of a cell stays in a possible state; absorbed photons ionize it",
     "A cell lets through a part of an incoming rate that is not negative and not more than the whole, less the more neutral gas it has, everything if there is none, and nothing of a rate below the threshold; two cells in a row let through as much as "
     "one of twice the length, and the rate that is absorbed is the rate of ionizations in the cell. After an update over any time step with any rate, from any ionized fraction from 0 to 1 (these included), temperature and density, the ionized "
     "fraction is within [1e-10, 1 - 1e-10], the temperature and the timescale are positive numbers; with prevent_cooling neither is below its value before (up to these limits); cold gas in the dark does not become more ionized, "
     "and gas that absorbs far more photons than it has atoms and recombinations is ionized.",
     ["inputs"],
     "All densities, temperatures, ionized fractions from 0 to 1, sizes, rates, time steps and safety factors; values are compared to 2e-5.",
     "The tests of the chemistry compare single rates and a few evolutions with reference data; they do not start from the limits and do not use prevent_cooling.",
     ["src/chemistry/hydrogen_only/mod.rs", "src/sweep/site.rs"],
     [("absorption", "hydrogen_only/mod.rs: get_outgoing_rate, num_newly_ionized_hydrogen_atoms"),
      ("subdivision of time steps", "hydrogen_only/mod.rs: perform_timestep_internal, try_timestep_update, update"),
      ("limits", "hydrogen_only/mod.rs: clamp")],
     "Chemistry.tla (all start values, floors and rates of change of a discrete gas: the halving of time steps covers the whole time step, stays within the limits, ends, and gas that gains does gain; its variant RawFloor shows the defect repaired in /repo) and ChemistryTrace.tla on random states, the limits included, given to the real chemistry.",
     "outgoing rates of cells, and fraction, temperature and timescale after updates")

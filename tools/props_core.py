prop("C01", "Rounds of all-to-all exchange deliver exactly what was sent, and end",
     "In every round of an exchange in which all ranks take part, each rank receives from every other rank exactly the "
     "items, in order, that this rank had for it in the same round, and an empty list from those that had nothing for it. "
     "No rank gets data of another round, nothing is left undelivered afterwards, and no choice of who sends what to whom, "
     "of message sizes or of relative speed makes a rank wait forever.",
     ["schedules", "inputs", "histories"],
     "All numbers of ranks, sequences of rounds, sets of items (also none, also to some ranks only), orders in which the "
     "ranks run, and all buffering decisions of the message library.",
     "The test suite runs on a single rank, where no message is sent at all.",
     ["src/communication/exchange_communicator.rs", "src/communication/mpi_world.rs", "src/communication/data_by_rank.rs"],
     [("non-blocking sends, empty messages to the rest, receives in rank order", "exchange_communicator.rs: exchange_all, exchange_same_for_all, receive_vec, empty_send_to_others"),
      ("per-round bookkeeping of who has been sent to", "exchange_communicator.rs: pending_data")],
     "Exchange.tla (message level: all interleavings for 3 ranks x 1-2 rounds and 2 ranks x 3 rounds, no deadlock, refinement of the abstract rounds) "
     "and ExchangeTrace.tla: thousands of rounds of the real communicator on 1-5 ranks over a stand-in MPI with a seeded scheduler are checked against the abstract rounds; sampling of schedules and data, not exhaustive.",
     "entry into and return from each round on every rank")

prop("C02", "Point-to-point messages arrive once, complete and in order, per kind",
     "What a rank sends to another rank is received there exactly once, complete and unchanged, by the receiver that asks "
     "for this sender and this kind of message, and messages of one kind between two ranks arrive in the order in which "
     "they were sent. Asking without waiting returns nothing only when nothing has arrived, and messages of different "
     "kinds never mix.",
     ["schedules", "inputs", "histories"],
     "All sequences of sends and receives by any number of ranks, lists of any length including empty ones, any payload type, "
     "any interleaving.",
     "There are no multi-rank tests in the suite that runs; the tags that separate message kinds are never exercised.",
     ["src/communication/mpi_world.rs"],
     [("one tag per payload type or one chosen by the caller", "mpi_world.rs: calculate_hash, new_custom_tag"),
      ("matched probe, then receive of as many items as were announced", "mpi_world.rs: receive_vec, try_receive_vec"),
      ("empty lists are messages too", "mpi_world.rs: blocking_send_vec, immediate_send_vec")],
     "PointToPoint.tla checked by TLC (2 ranks in quick, 3 in thorough) and PointToPointTrace.tla on recorded runs of the real wrapper (1-4 ranks, 4 kinds of message, blocking and non-blocking, random schedules).",
     "each send and each successful receive on every rank")

prop("C03", "Collective operations give every rank the same, right result",
     "A collective operation (gather of one or of several values per rank, sum, minimum, maximum, test for equality) returns on every rank "
     "the result computed from the values that all ranks contributed to this very operation, in rank order where order matters. "
     "Each rank knows its own number, the number of ranks, and the list of all and of all other ranks correctly.",
     ["schedules", "inputs"],
     "All numbers of ranks, contributed values (negative, equal, empty lists), sequences of operations and interleavings.",
     "On the single rank of the tests every collective operation is the identity.",
     ["src/communication/mpi_world.rs", "src/communication/sized_communicator.rs"],
     [("gather with counts and displacements", "mpi_world.rs: all_gather_varcount"),
      ("reductions on gathered values", "mpi_world.rs: all_gather_sum, all_gather_min, all_gather_max, all_reduce_sum, all_ranks_have_same_value"),
      ("rank lists", "sized_communicator.rs: other_ranks, all_ranks")],
     "Collectives.tla checked by TLC for 3 ranks and CollectivesTrace.tla on recorded runs of the real operations (1-5 ranks).",
     "result of each operation on every rank")

prop("C04", "Splitting into chunks: equal number of chunks on all ranks, no item lost",
     "When ranks split lists of different lengths into chunks of a given size, all ranks get the same number of chunks, each chunk "
     "has at most the given size, and the chunks of a rank joined together are exactly its list. There are only as many chunks as the longest list needs.",
     ["inputs", "configurations"],
     "All numbers of ranks, list lengths (zero, multiples of the chunk size, anything else) and chunk sizes of at least one.",
     "No test calls it; with a single rank the numbers always agree.",
     ["src/communication/exchange_communicator.rs"],
     [("global maximum of the numbers of chunks, padded with empty chunks", "exchange_communicator.rs: divide_into_chunks_with_same_num_globally, global_num_chunks, div_ceil")],
     "Chunks.tla checked by TLC for all list lengths 0-5 and chunk sizes 1-4 on 2 (thorough: 3) ranks; ChunksTrace.tla checks the real function on 1-4 ranks, lengths 0-20, sizes 1-6.")

prop("C05", "Per-rank data: a value belongs to the rank it was stored for",
     "A collection of per-rank data behaves as a map from ranks to values: inserting, looking up, changing, removing, draining, counting and iterating "
     "in rank order see exactly the values stored for each rank and not removed since. The constructors for communicators create entries exactly for the "
     "other ranks, or for all ranks where the caller asks for that.",
     ["histories", "inputs"],
     "All sequences of operations, in any order, including sparse ranks, insertion past the end, replacement and use after draining.",
     "Two tests insert three values and iterate once; neither removes, drains, overwrites or indexes.",
     ["src/communication/data_by_rank.rs"],
     [("vector of optional values indexed by rank", "data_by_rank.rs: DataByRank"), ("consuming iterator", "data_by_rank.rs: IntoIter")],
     "DataByRankMC.tla checked by TLC over all histories of 3 ranks with lists up to length 2; DataByRankTrace.tla checks histories of up to 13 operations on the real collection.")

prop("C06", "Reading: every entry of every input file is read by exactly one rank, evenly",
     "When a snapshot spread over several files is read by several ranks, every entry of every file is assigned to exactly one rank, the assignment "
     "follows the order of files and ranks without gaps or overlaps, and it never names an entry that does not exist. "
     "Every rank gets the number of all entries divided by the number of ranks, with less than one entry per rank of remainder going to some of them; it works for empty files and for more ranks than entries.",
     ["inputs", "configurations"],
     "All numbers of files, file sizes including zero, and numbers of ranks.",
     "The tests check five hand-picked configurations.",
     ["src/io/file_distribution.rs"],
     [("cursor through files and ranks", "file_distribution.rs: get_rank_input_assignment_for_rank, get_rank_assignment")],
     "FileDistribution.tla: the cursor algorithm is checked by TLC for all configurations up to 3x3x4 (thorough 4x4x5); FileDistributionTrace.tla evaluates the same relation on the real function for all configurations of up to 4 files of up to 4 entries on up to 6 ranks and thousands of larger random ones.")

prop("C07", "Writing: every entry of every rank goes to exactly one place in the output files",
     "When the entries of several ranks are written to a chosen number of output files, every rank writes exactly as many entries as it has, no two ranks write to the same place, "
     "and every file is filled from its beginning without holes, in rank order. The files get equal shares up to a remainder of less than one entry per file, also when ranks have nothing to write or there are more files than entries.",
     ["inputs", "configurations"],
     "All numbers of ranks, entries per rank including zero, and numbers of output files.",
     "The tests check three hand-picked configurations.",
     ["src/io/file_distribution.rs"],
     [("cursor through files and ranks", "file_distribution.rs: get_rank_output_assignment_for_rank, get_rank_assignment")],
     "Same specification as C06 with the roles of files and ranks exchanged.")

prop("C08", "Space-filling keys order the cells of a box along a Hilbert curve",
     "The keys of points in a box order the cells of every dyadic grid on the box along one continuous curve: different cells of the finest grid have different keys, points in the same cell the same, "
     "cells next to each other on the curve share a face, and a finer curve passes through the cells of a coarser one one after the other in the same order. "
     "This holds in two and three dimensions, for boxes of any size, position and aspect, at every level down to the finest.",
     ["inputs", "configurations"],
     "All points and boxes, and all levels of the grid.",
     "The tests compare the keys of a coarse grid in one box with a picture of the curve; the deeper levels and other orientations and boxes are not reached.",
     ["src/peano_hilbert.rs"],
     [("scaling of positions to integers", "peano_hilbert.rs: from_point_and_min_max, get_integer_position"),
      ("curve state machine", "peano_hilbert.rs: integer_to_hilbert / rotation tables")],
     "Hilbert.tla: the requirements are checked on an explicit curve by TLC up to 16x16 and 8x8x8; HilbertTrace.tla checks them on the real keys, exhaustively for blocks of 2-4 levels at every level of the recursion, for sampled orientations and three boxes.")

prop("C10", "The extent of a set of points is its tightest bounding box",
     "The extent computed from a set of points contains all of them and touches a point on every side; its centre, side lengths and largest side length belong to it, and an empty set has none. "
     "The extent that includes the periodic images covers the box and its neighbours on all sides, around the same centre.",
     ["inputs"],
     "All finite sets of points in one, two and three dimensions, including single points, duplicates and sets in a plane.",
     "One test with two point sets in each of two and three dimensions.",
     ["src/extent.rs", "src/units/helpers.rs"],
     [("running minimum and maximum", "extent.rs: from_points, from_min_max"), ("centre and sides", "extent.rs: center, side_lengths, max_side_length, including_periodic_images")],
     "Extent.tla checked by TLC for up to 4 points of a 3x3 (thorough 4x4) grid; ExtentTrace.tla compares exactly with the real code on dyadic coordinates.")

prop("C11", "Values that are sent between ranks arrive bit for bit",
     "A value of any of the types that ranks send to each other (optional values, extents, space-filling keys, direction numbers) arrives as the value that was sent, whether by a message or by a gather, "
     "and an absent value arrives as absent. A copy of such a value, made without communication, equals the original.",
     ["inputs", "programs"],
     "All values of the types, absent ones included, in lists of any length.",
     "No test sends any of these types.",
     ["src/communication/communicated_option.rs", "src/extent.rs", "src/peano_hilbert.rs", "src/sweep/direction/mod.rs"],
     [("user-defined message layouts", "communicated_option.rs: impl Equivalence"), ("derived layouts", "extent.rs, peano_hilbert.rs, direction/mod.rs")],
     "Shipping.tla (only the bytes named by a layout travel) checked by TLC; ShippingTrace.tla on the real layouts, read out through a stand-in MPI that copies exactly the bytes that the registered datatype names and fills the rest with noise.")

prop("C12", "Per-direction counters count down exactly, independently of each other",
     "A set of counters, one per direction, starts at the given value in every direction; counting down or changing one direction returns and stores the right new value and changes no other direction. "
     "The total is the sum over all directions at all times.",
     ["histories"],
     "All sequences of operations, for any number of directions.",
     "No test uses the counters on their own.",
     ["src/sweep/count_by_dir.rs"],
     [("vector of counts", "count_by_dir.rs: new, reduce, total, Index")],
     "CountByDir.tla checked by TLC over all histories for 4 (thorough 6) directions; CountByDirTrace.tla on recorded histories of the real counters.")

prop("C13", "Direction sets are even on the sphere, and rotations preserve geometry",
     "Every built-in set of directions has the promised number of distinct unit vectors, balanced so that opposite contributions cancel and no region of the sphere is left out. "
     "A rotation of the directions about an axis by an angle, or a random one, keeps lengths, angles and handedness, turns the right way around, and is reproducible from the seed while successive ones differ.",
     ["inputs", "configurations"],
     "All built-in direction sets, axes, angles, seeds and vectors.",
     "The existing tests look at one fixed rotation; the tables are not checked.",
     ["src/sweep/direction/mod.rs", "src/sweep/direction/healpix.rs"],
     [("tables", "healpix.rs"), ("rotation matrices", "direction/mod.rs: get_rotation_matrix, get_random_rotation_matrix, multiply_by_matrix")],
     "Directions.tla: the group of grid rotations is checked by TLC; DirectionsTrace.tla checks tables and rotations of the real code in fixed-point arithmetic (1e-4) and the invariants to 1e-7.")

prop("C14", "Signs of determinants are exact",
     "The sign (positive, negative or zero) of the determinant of a matrix of size three or four is the exact one for all finite entries, however nearly singular the matrix is and whatever the scale of its entries. "
     "The same holds for matrices of size five whose determinant is not within rounding of zero, and for those with entries on a small integer grid.",
     ["inputs"],
     "All matrices with finite entries of moderate exponent, singular and nearly singular ones included.",
     "The tests check a few random matrices, for which floating point is never in doubt.",
     ["src/voronoi/math/utils.rs", "src/voronoi/math/precision_types.rs", "src/voronoi/math/traits.rs"],
     [("float evaluation with an error bound, exact rationals otherwise", "math/utils.rs: determinant3x3_sign, determinant4x4_sign, determinant5x5_sign; precision_types.rs"),
      ("algebra of signs", "math/utils.rs: Sign")],
     "Determinant.tla: matrices built by row and column operations with tracked sign, checked by TLC; DeterminantTrace.tla checks the real predicates on such matrices at many scales, on small integer matrices (determinant evaluated by TLC) and on nearly singular ones (exact rational reference). One repaired defect and one known finding.")

prop("C15", "Linear solvers return the solution, and vector operations are exact",
     "For every regular system of linear equations the exact solver returns the exact solution, and the fast one for three equations with coefficients of order one returns either an accurate solution or an error, never a wrong one. "
     "Sums, differences, products, extrema, distances and normalisation of vectors are those of vector algebra.",
     ["inputs"],
     "All regular systems of size up to four, including those that need row exchanges, and all vectors.",
     "The tests solve a handful of systems.",
     ["src/voronoi/math/utils.rs", "src/voronoi/math/traits.rs", "src/voronoi/math/precision_types.rs"],
     [("elimination", "math/utils.rs: solve_system_of_equations and its float-only variant"), ("vector traits", "math/traits.rs, units/helpers.rs")],
     "LinearAlgebra.tla: elimination with pivoting keeps the solution, checked by TLC for all 2x2 systems (thorough 3x3) over a small set; LinearAlgebraTrace.tla: Cramer's rule evaluated by TLC on the systems given to the real solvers.")

prop("C16", "Handles of stored items stay valid until removal, and never come back to life",
     "An item stored in the indexed containers is found under the handle returned for it, with its current value, until it is removed, whatever else is inserted or removed meanwhile. "
     "After removal the handle finds nothing even when its place has been reused, and number, membership and iteration agree with what is stored.",
     ["histories"],
     "All sequences of insertions, removals, changes and look-ups.",
     "No test of the containers.",
     ["src/voronoi/indexed_arena.rs"],
     [("generational arena and vector with typed handles", "indexed_arena.rs: IndexedArena, IndexedVec")],
     "Arena.tla checked by TLC over all histories of 5 (thorough 7) handles; ArenaTrace.tla on recorded histories of up to 60 operations.")

prop("C17", "The compact code of a tree node determines the node",
     "Each child of a tree node, and the node itself, has its own one-byte code; decoding a code gives back the child it was made from, and the text form is the child's number. "
     "Hence different paths in the tree have different codes.",
     ["inputs"],
     "All children and all paths.",
     "One test makes the round trip of single codes; it does not see codes that clash or paths.",
     ["src/quadtree/node_index.rs"],
     [("conversions", "node_index.rs: From<u8>, From<NodeIndex>")],
     "NodeIndex.tla checked by TLC for all paths up to depth 4 (thorough 5); NodeIndexTrace.tla: all codes of the real type.")

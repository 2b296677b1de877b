p("S01", "Serialization round-trips every supported value",
  "Deserializing, at any offset of any buffer, the bytes that serializing a value appended there gives back a value equal to the original, field by field and element by element. "
  "Serializing only appends to the buffer, and both sides report exactly the number of bytes the value occupies.",
  ["inputs", "programs"], "every value of every supported type (plain data, strings, vectors, maps, pairs, Eigen matrices of fixed and run-time size, isometries, graphs, voxel grids, joint models), every buffer prefix, every element codec that itself round-trips",
  "Round trip is a claim about all values, sizes, nestings and offsets; the tests try two Eigen sizes and one small graph, all at one offset.",
  [H + "serialization.hpp", H + "serialization_eigen.hpp", H + "graph.hpp", H + "voxel_grid.hpp", H + "simple_linked_robot_model.hpp"],
  [("writer/reader pairs agree on order, width and count of every part", H + "serialization.hpp"), ("size header before repeated elements", H + "serialization.hpp SerializeVectorLike/SerializeMap/SerializeString")],
  ["returned value and byte count of every deserializer", "buffer contents after every serializer"],
  "abstract interpretation of both codec sides into symbolic byte layouts, aligned part by part",
  "Sound for all values and sizes within the modelled standard-library and Eigen operations; parametric in user element codecs; assumes no 64-bit overflow of sizes.")
p("S02", "Deserializers never touch bytes outside the buffer",
  "Whatever bytes a buffer holds and whatever offset is given, no deserializer of plain data, strings, containers or matrices reads beyond the end of the buffer: it stops with a failed check instead. "
  "Every raw copy into or out of an object or array moves exactly the bytes that object or array has.",
  ["inputs"], "every buffer content (including truncated and corrupt ones) and every offset",
  "The tests only ever deserialize well-formed buffers; truncated and hostile size headers are never tried.",
  [H + "serialization.hpp", H + "serialization_eigen.hpp"],
  [("length checks before every raw copy", H + "serialization.hpp, serialization_eigen.hpp")],
  ["memory accesses of the deserializers"],
  "abstract interpretation: dominating-check (interval/linear) analysis of every raw buffer access",
  "Every raw access in the instantiated codecs is covered; asserts are taken as enabled, as in the repository's build; unsigned arithmetic of a check that may wrap around proves nothing.")
p("S03", "Network serialization is big-endian on the wire",
  "The network variants put every multi-byte scalar and every element count on the wire in network (big-endian) byte order at its full width, one-byte scalars unchanged, and read them back the same way.",
  ["inputs"], "every scalar type of 1, 2, 4 and 8 bytes, every value",
  "No test uses the network variants; a round-trip test would not notice that both sides skip the swap or swap the wrong width.",
  [H + "serialization.hpp"], [("fixed-width byte swap", H + "serialization.hpp SerializeNetworkFixedSizePOD/DeserializeNetworkFixedSizePOD")],
  ["bytes appended to the buffer"],
  "value numbering of the written bytes with byte-swap as an involution",
  "Complete for the ten scalar instantiations and the count headers; little-endian host.")
p("B01", "Base64 encoding and decoding are inverse and memory safe",
  "Decoding the encoding of any byte string gives back that byte string, and the encoding is the standard alphabet with '=' padding. "
  "Decoding never indexes its lookup table or its input out of range for any input characters.",
  ["inputs"], "every byte string of every length; every input text for memory safety",
  "No test touches base64; the claim is over all lengths modulo three and all byte values, including characters above 127.",
  [S + "base64_helpers.cpp"], [("mutually inverse tables and bit packing", S + "base64_helpers.cpp Encode/Decode")],
  ["Encode/Decode results"],
  "bit-provenance dataflow over the encoder and decoder plus table inversion",
  "All length residues and all byte values; decides the identity per group of bits and the loop/length arithmetic.")
p("Z01", "Compression never loses data or hides an I/O failure",
  "Decompressing what was compressed restores the same bytes whatever the size, because every byte the compressor or decompressor produces is appended exactly once, in order, until the stream ends. "
  "A failing codec call or a failing file read or write is reported by an exception rather than by silently truncated data, and codec resources are released on the normal path.",
  ["inputs", "fault_sequences"], "every input size relative to the chunk size, every codec status, every stream failure",
  "No test uses compression; faults such as a full disk or a corrupt stream never occur in tests.",
  [S + "zlib_helpers.cpp"], [("inflate/deflate loops with chunk accounting", S + "zlib_helpers.cpp"), ("status checks that throw", S + "zlib_helpers.cpp")],
  ["results and exceptions of the compression helpers"],
  "typestate and buffer-accounting dataflow over the z_stream protocol",
  "Covers call order, status handling, chunk accounting and stream-state checks; zlib itself is trusted.")
p("V01", "Voxel grid cells are addressed one-to-one and in bounds",
  "Every in-range cell index addresses its own storage element, distinct for distinct indices and never outside the backing store; every out-of-range index is reported as such, without touching storage. "
  "Reads and writes at the same index meet the same element.",
  ["inputs"], "every grid size and every signed index triple, in or out of range",
  "No test constructs a grid; the claim ranges over all sizes and all indices, including negative ones.",
  [H + "voxel_grid.hpp"], [("stride arithmetic and bounds predicate", H + "voxel_grid.hpp GetDataIndex/IndexInBounds")],
  ["results of the grid's index accessors"],
  "abstract interpretation with linear/divisibility reasoning on the index polynomial",
  "Sound for every accessor instantiated; assumes products of dimensions do not overflow.")
p("V02", "Grid location and index conversions are mutually consistent",
  "The location reported for a cell lies in that cell: converting an in-range index to its location and back gives the same index. "
  "Converting any point gives the cell that contains it, so a point outside the grid's extent is never reported as inside on any side.",
  ["inputs"], "every grid pose, cell size, index and point, including points just outside each face",
  "No test converts locations; errors only show on one side of the origin.",
  [H + "voxel_grid.hpp", H + "dynamic_spatial_hashed_voxel_grid.hpp"],
  [("location/index formulas with the pose and its inverse", H + "voxel_grid.hpp LocationToGridIndex/GridIndexToLocation")],
  ["results of the conversion accessors"],
  "value numbering of the composed conversion plus rounding-mode analysis",
  "Exact-arithmetic argument: floating-point rounding at cell faces is out of scope.")
p("G01", "Graph edges stay paired",
  "Every way of adding an edge between two different existing nodes records the same edge, with the endpoints and weight given, both on the node it leaves and on the node it enters; an edge with a missing endpoint or from a node to itself is refused without changing the graph. "
  "Adding a node or using any other member leaves all recorded edges alone, and looking up an edge gives one leading from the first node to the second or fails. "
  "The linkage check, also made on construction, accepts a graph exactly when every listed edge joins its own node with a different existing node whose opposite list has an edge back to it.",
  ["histories", "inputs"], "every sequence of graph operations on every graph",
  "Tests build one small graph; the invariant must survive arbitrary histories and both edge lists.",
  [H + "graph.hpp"], [("paired in/out edge lists", H + "graph.hpp addEdgeBetweenNodes/addEdgesBetweenNodes"), ("linkage check", H + "graph.hpp CheckGraphLinkage")],
  ["edge lists of every node after any operation"],
  "abstract interpretation of each mutator into an edge-effect summary",
  "Inductive invariant checked per public mutator over symbolic graphs.")
p("G02", "Dijkstra and A* record and reuse only correct cheapest ways",
  "In Dijkstra and every A* variant, a node's cost and predecessor are recorded together, from the expanded node and an allowed edge to it (Dijkstra follows edges backwards): its cost plus that edge's distance; queue priority adds the heuristic, the lowest priority is expanded first, and a node is expanded again only for a strictly cheaper way. "
  "A candidate is dropped only if its edge is disallowed or an equal or cheaper way to it is known (the template planner also skips nodes already expanded), so every reachable goal is found. "
  "The reported path follows the recorded predecessors from start to goal and its cost is the goal's recorded cost (infinite with an empty path if none).",
  ["inputs"], "every graph, weight, validity, distance and heuristic function, start and goal",
  "Tests search one five-node graph; relaxation errors show only on graphs with competing ways, invalid edges or re-opened nodes.",
  [H + "dijkstras.hpp", H + "graph.hpp", H + "arc_helpers.hpp", H + "simple_astar_planner.hpp"],
  [("relaxation", H + "dijkstras.hpp PerformDijkstrasAlgorithm"), ("expansion and result extraction", H + "arc_helpers.hpp GenericAstarSearch/ExtractAstarResult"), ("lazy edges", H + "dijkstras.hpp PerformLazyAstar"), ("template planner", H + "simple_astar_planner.hpp Plan")],
  ["returned costs, predecessors and paths"],
  "abstract interpretation of each search loop into guarded relaxation steps; case-by-case comparison with the relaxation specification",
  "Proves each step of the search (what is recorded, queued, dropped, reported), not global optimality, which follows for consistent heuristics by the standard argument.")
p("G03", "Connected components are numbered exactly",
  "In a graph whose edges run both ways, the component numbering gives every node a number from 1 to the reported count, and two nodes get the same number exactly when a path of edges joins them; isolated nodes get a number of their own. "
  "Asking for the components never changes the graph.",
  ["inputs"], "every linked graph whose edges run both ways",
  "Tests number one connected graph; the errors need several components, isolated nodes or particular node orders.",
  [H + "graph.hpp"], [("labelling search", H + "graph.hpp getConnectedComponentsUndirected/markConnectedComponentUndirected")],
  ["returned numbers and count"],
  "abstract interpretation of the labelling loops into guarded marking steps",
  "Inductive argument over the search; directed graphs are out of scope.")
p("V03", "The dynamic grid keeps what was set, cell by cell and chunk by chunk",
  "In a dynamic grid, setting a cell changes exactly that cell and setting a chunk exactly that chunk's region: a later read of the same place returns the value and says whether it came from a cell or a chunk, and everything else reads as before - cells of a region that held one value keep that value, and unset places read as the default. "
  "A location belongs to the chunk whose region contains it, on both sides of the origin, and to the cell of that chunk which contains it; reads never change the grid.",
  ["inputs", "histories"], "every grid pose, cell size, chunk extent and location; every prior state of the touched region (absent, one value, individual cells)",
  "No test builds a dynamic grid; the interesting cases are conversions between the two chunk kinds and negative coordinates.",
  [H + "dynamic_spatial_hashed_voxel_grid.hpp"],
  [("chunk conversion on a cell write", H + "dynamic_spatial_hashed_voxel_grid.hpp SetCellValue"), ("containing-chunk formula", H + "dynamic_spatial_hashed_voxel_grid.hpp GetContainingChunkRegion")],
  ["results of the grid's accessors"],
  "abstract interpretation of every public accessor from each symbolic chunk state; effect comparison against the cell/chunk specification",
  "One inductive step per state and accessor; exact arithmetic (rounding at faces out of scope); overflow of dimension products excluded.")
p("G04", "Roadmaps join states only where allowed, at the right cost, and report paths",
  "Growing or querying a roadmap joins a new state to a nearby state, in both directions, exactly when the edge check accepts the pair, each direction weighted by the distance along it; sampled states are kept only if the state check accepts them, and a state is merged only with one at distance zero and only when duplicates are not wanted. "
  "Refreshing the edges gives every edge, at both of its ends, its current distance or infinity where the edge check rejects it. "
  "A query returns the states found from a given start to a goal together with that path's cost - the cheapest start and goal when several are given - and an empty path with infinite cost when there is none.",
  ["inputs"], "every roadmap, start and goal set, distance (symmetric or not), validity check, neighbour count and duplicate setting",
  "No test builds a roadmap; one-way distances, rejected edges, duplicate edges and unreachable starts each take their own path through the planner.",
  [H + "simple_prm_planner.hpp"],
  [("adding a state", H + "simple_prm_planner.hpp AddNodeToRoadmap"), ("refreshing edges", H + "simple_prm_planner.hpp UpdateRoadMapEdges"),
   ("choosing a start and walking back", H + "simple_prm_planner.hpp QueryPathAndAddNodesMultiStartSingleGoal")],
  ["the roadmap after each operation", "returned path and cost"],
  "abstract interpretation with the neighbour query and graph searches as boundaries; edge events compared under case-split path conditions",
  "Relies on G02 for what the searches return and K01 for what the neighbour query returns; equality of path and cost is by construction of the summaries, not by running a query.")
p("K01", "Nearest-neighbour queries and distance matrices are right entry by entry",
  "Asking for the K nearest of a list returns every item, in order, with its own distance when there are K or fewer; with more it returns K of the items at finite distance (all of them when fewer than K are), each once with its own index and distance, and no item left out is closer than one returned - serially and in parallel alike. "
  "A distance matrix has the distance between item i and item j at row i and column j, for one list symmetric with a zero diagonal, and for two lists with a row for each item of the first and a column for each of the second.",
  ["inputs"], "every list (empty, ties, infinite distances), K, and thread count",
  "The one test asks for one K from a few points; ties, infinite distances, more threads than items and non-square matrices are not sampled.",
  [H + "arc_helpers.hpp"],
  [("selection of the K closest", H + "arc_helpers.hpp GetKNearestNeighborsSerial/Parallel"), ("distance matrices", H + "arc_helpers.hpp BuildDistanceMatrixSerial/Parallel")],
  ["returned index/distance pairs and matrix cells"],
  "abstract interpretation of the selection and matrix loops into replace/append steps and cell writes; entailment of step guards, coverage of the index rectangle",
  "Proves the one-step invariant (the list's greatest entry is replaced by exactly the closer candidates); that the invariant gives the K closest is the usual induction. Distances that are NaN are excluded.")
p("K02", "Hierarchical clustering merges the closest groups and loses nothing",
  "Items are partitioned into clusters, every item in exactly one. "
  "Each step merges the two closest groups (single link: least, complete link: greatest distance between their members) as long as that distance is within the threshold, and clustering ends when it is not (or no pair at finite distance is left). "
  "The returned distance is that of the closest pair left, serially and in parallel alike.",
  ["inputs"], "every data set, symmetric distance, threshold, strategy and thread count",
  "Only the distances of a few points are ever sampled; ties, many groups, everything merged and infinite thresholds are not.",
  [H + "simple_hierarchical_clustering.hpp"],
  [("search for the closest pair", H + "simple_hierarchical_clustering.hpp GetClosestPair"), ("rounds of merging", H + "simple_hierarchical_clustering.hpp Cluster")],
  ["returned clusters and distance"],
  "abstract interpretation of the search into a minimum over guarded options (coverage of all pairs by entailment) and of a round into its effect on groups and marks",
  "One inductive step (one search, one round) for every state; termination follows because a merge leaves one group fewer. Distances that are NaN, negative or asymmetric are excluded.")
p("K03", "Clustering by k-means ends only when it is stable",
  "Clustering by k-means ends only when it is stable: every item carries the number of a centre that no other centre is closer than, and every centre is what the caller's averaging function gives for exactly the items (with their own weights) carrying its number. "
  "Clustering starts from as many different elements of the data as clusters are asked for, or from such averages over a subset of the data, and asking for one cluster puts every item into it.",
  ["inputs"], "every data set, weights, distance and averaging function, number of clusters and random choice of the start",
  "No test clusters anything; the result depends on a random start and on many rounds.",
  [H + "simple_kmeans_clustering.hpp"],
  [("assignment", H + "simple_kmeans_clustering.hpp PerformSingleClusteringIteration"), ("averages", H + "simple_kmeans_clustering.hpp ComputeClusterCentersWeighted"), ("rounds and start", H + "simple_kmeans_clustering.hpp ClusterWeighted")],
  ["returned labels and centres"],
  "abstract interpretation of assignment, averaging and rounds into guarded minima and filtered lists; entailment of the exit condition",
  "That a stable state is reached at all depends on the averaging function and is not claimed; an empty cluster's average is whatever the caller's function gives for no items.")
p("M03", "Angle helpers work modulo full turns and stay in range",
  "Wrapping gives the same angle above minus half a turn and up to half a turn; the signed distance is what must be added to the first angle to get the second, in that same range, and the plain distance is its size; the range from one angle to another is the way up between them, from zero to less than a full turn. "
  "An angle is inside a range or bounds exactly when the way up from the start to it is no longer than that range. "
  "Interpolation takes the shorter way from the first angle (ratio zero or below) to the second (ratio one or above) in proportion to the ratio, and stays within half a turn of zero.",
  ["inputs"], "every finite angle (any number of turns, the seam itself) and every ratio",
  "The tests check a handful of angles and never the signed distance across the seam, whose sign was wrong.",
  [H + "math_helpers.hpp"],
  [("wrapping", H + "math_helpers.hpp EnforceContinuousRevoluteBounds"), ("distance", H + "math_helpers.hpp ContinuousRevoluteSignedDistance"),
   ("interpolation", H + "math_helpers.hpp InterpolateContinuousRevolute"), ("membership", H + "math_helpers.hpp CheckInContinuousRevoluteRange")],
  ["returned angles"],
  "abstract interpretation of each helper into conditional linear terms; per case congruence modulo the period and polyhedral (Fourier-Motzkin) bounds",
  "Exact arithmetic: rounding next to the seam is out of scope. Half a turn is the decimal value of the library constant.")
p("M02", "Interpolation is straight; clamping and spreading choose the right limit",
  "Interpolating numbers, pairs, lists, vectors or poses at a ratio limited to 0..1 gives (1 - ratio) times the first plus ratio times the second in every component, and spherical interpolation from the first to the second for rotations; lists of different sizes give an empty list and vectors of different sizes are refused. "
  "Clamping gives the value itself inside the limits and the closer limit outside of them. "
  "Spreading moves a value strictly between the thresholds to the high threshold from the midpoint upwards and to the low one below it, and leaves every other value alone.",
  ["inputs"], "every pair of end points, ratio (outside of 0..1 too), value and ordered limits",
  "The tests interpolate angles only; ratios beyond the ends, differing sizes, the exact midpoint and rotations in opposite hemispheres are not sampled.",
  [H + "math_helpers.hpp", H + "eigen_helpers.hpp", H + "arc_helpers.hpp"],
  [("interpolation", H + "math_helpers.hpp, eigen_helpers.hpp Interpolate"), ("ratio limits", H + "math_helpers.hpp SafetyCheckUnitInterval"), ("clamping and spreading", H + "arc_helpers.hpp ClampValue/SpreadValue")],
  ["returned values"],
  "abstract interpretation of each overload into conditional polynomial terms compared case by case with the specification",
  "Exact arithmetic. The matrix library's slerp is trusted to be the spherical interpolation it documents.")
p("M06", "Element-wise arithmetic, norms and distances equal their definitions",
  "Absolute value, sum, difference, product and quotient of pairs and lists combine the elements at the same position, and lists of different sizes give an empty list; sums, norms and Euclidean distances are over all components, and lists of different sizes are infinitely far apart. "
  "Two values are close exactly when no component differs by more than the threshold's size; lists of different sizes are never close. "
  "Distances along a list of points, tables of distances between the columns of matrices, and the closest column give for every entry the Euclidean distance their definition asks for, and no list, empty ones included, is read outside of its bounds.",
  ["inputs"], "every length (empty and one included), every element value and threshold",
  "The tests call few of these helpers with one short list each; empty lists, differing sizes and single points take their own paths.",
  [H + "vector_math.hpp", H + "math_helpers.hpp", H + "eigen_helpers.hpp"],
  [("element-wise operations", H + "vector_math.hpp"), ("distances along points", H + "eigen_helpers.hpp CalculateTotalDistance/CalculateCumulativeDistances"), ("tables of distances", H + "eigen_helpers.hpp CalculateSquaredDistanceMatrix/SquaredDistancesBetweenPointSets")],
  ["returned values"],
  "abstract interpretation with loop summaries (element-wise maps, running sums, cell writes) compared with the definitions; polyhedral index-bounds check",
  "Exact arithmetic. Element-wise maps are proved for a symbolic position and length.")
p("M05", "Averages are weighted means over every item; spread is the sample deviation",
  "The average of numbers or vectors is the mean weighted by the size of the given weights (equal weights when none are given), whatever items lead with zero weight; the standard deviation is the root of the squared deviations from the mean over one less than their number, and zero for one value. "
  "The average of rotations is the principal direction of the outer products of their weighted quaternions, the same for every sign and order. "
  "The average of poses combines the averages of their translations and rotations under the same weights.",
  ["inputs"], "every non-empty list, every weighting that is not all zero",
  "The tests average a few values with a few weights; leading zeros, negative weights and weighted poses are not sampled.",
  [H + "math_helpers.hpp", H + "eigen_helpers.hpp"],
  [("running averages", H + "math_helpers.hpp AverageStdVectorDouble, eigen_helpers.hpp AverageEigenVector"), ("rotations", H + "eigen_helpers.hpp AverageEigenQuaterniond"), ("poses", H + "eigen_helpers.hpp AverageEigenIsometry3d")],
  ["returned averages"],
  "abstract interpretation; the running average's round is checked to keep average * weight = weighted sum (polynomial identity), with its start and skipped prefix",
  "Exact arithmetic; eigenvectors are as the matrix library documents.")
p("M07", "Rotations, twists and rigid motions follow the textbook formulas",
  "Rotating a vector by a rotation and back, the matrix form of a cross product, the matrix form of a twist, and the change of frame of a twist are the textbook formulas in every component, and the conversions back undo them. "
  "Exponentials of rotation axes and of twists are the motion along them for the given time, including twists that do not rotate. "
  "Distances between points are Euclidean, distances between rotations are the smallest angle between them, and distances between poses are the stated mixture.",
  ["inputs"], "every vector, rotation, twist, pose and time",
  "The tests call none of these; every component of a formula has to be right for every argument, and a transposed or swapped part only shows on asymmetric ones.",
  [H + "eigen_helpers.hpp"],
  [("matrix forms", H + "eigen_helpers.hpp Skew/TwistHat/AdjointFromTransform"), ("exponentials", H + "eigen_helpers.hpp ExpMatrixExact/ExpTwist"), ("distances", H + "eigen_helpers.hpp Distance")],
  ["returned vectors, matrices and numbers"],
  "abstract interpretation into vector terms; components as exact rational functions, compared with the specification after sqrt, sine/cosine and unit-length identities",
  "Exact arithmetic; rotations are assumed to be of length 1 and the exponential's axis to be of unit length. The twist between two transforms does not compile with the installed matrix library and is not analysed.")
p("M08", "Projections, distances to lines and planes and angles are the geometric ones",
  "The projection of a vector on another is its part along it and the rejection the part across, with nothing along a zero base; projection to a plane removes the part along its normal and parallel directions are refused as a plane. "
  "Distances from lines and planes, weighted products, norms, cosines and angles follow their definitions, and the cosine is limited to -1..1 before the angle is taken. "
  "Scaling to length one, or down to a limit, keeps the direction and leaves short and zero vectors as they are; the pyramid inside a cone has four outward normals for every direction of the cone.",
  ["inputs"], "every vector, point, weight, limit and direction",
  "No test calls these; degenerate directions (zero, parallel, along a particular diagonal) are single points of the input space.",
  [H + "eigen_helpers.hpp"],
  [("projections", H + "eigen_helpers.hpp VectorProjection/VectorRejection"), ("line and plane", H + "eigen_helpers.hpp DistanceToLine/Hyperplane"), ("cone", H + "eigen_helpers.hpp ConvertConeToPyramid")],
  ["returned vectors and numbers"],
  "abstract interpretation into vector terms; components as exact rational functions compared with the geometric definition in every case of the branches",
  "Exact arithmetic: near-degenerate inputs within rounding are out of scope.")
p("M09", "Conversions between lists, vectors, angles and transforms keep every number",
  "Converting between lists of numbers and vectors, or between lists of small vectors and one long vector, keeps every number at its place and reads nothing outside of the source; a rotation as a list is x, y, z, w in this order both ways. "
  "A rotation from roll, pitch and yaw is the product of the rotations about x, y and z in the documented order (moving axes, or fixed axes for robot descriptions). "
  "A transform from or to six numbers has the position first and the angles after it.",
  ["inputs"], "every list and vector of every length, every angle and transform",
  "The tests convert nothing here; one of the conversions read eight times past its source.",
  [H + "eigen_helpers.hpp", H + "eigen_std_conversions.hpp"],
  [("lists and vectors", H + "eigen_helpers.hpp StdVectorToEigenVectorX and its relatives"), ("angles", H + "eigen_helpers.hpp QuaternionFromRPY/QuaternionFromUrdfRPY"), ("whole buffers", H + "eigen_std_conversions.hpp ConvertTo")],
  ["returned lists, vectors, rotations, transforms"],
  "abstract interpretation with loop summaries for a symbolic position and length; rotations compared by components with the product of elementary rotations",
  "Angles of a rotation are the matrix library's, about the axes asked for; other angle triples for the same rotation are not accepted.")
p("D01", "Distances between sequences are the cheapest alignment and the farthest nearest",
  "The dynamic time warping cost of two sequences is the cost of the cheapest alignment of all their items (steps in either or both sequences, every step paying the given distance of its two items), the same whatever the evaluator computed before. "
  "An empty sequence is infinitely far from a non-empty one and at no cost from another empty one. "
  "The Hausdorff distance is the largest distance from an item of the first collection to its nearest item in the second one.",
  ["inputs", "histories"], "every pair of sequences of every length, every distance, every history of evaluations with one evaluator",
  "No test calls these; ties between neighbours and evaluators used before on other lengths are special points of the input space.",
  [H + "simple_dtw.hpp", H + "simple_hausdorff_distance.hpp"],
  [("warping table", H + "simple_dtw.hpp InitializeMatrix/EvaluateWarpingCost"), ("farthest nearest", H + "simple_hausdorff_distance.hpp ComputeDistance")],
  ["returned cost"],
  "abstract interpretation with loop summaries: the border of the table is an invariant of the evaluator (construction, evaluation), every element is checked against the recurrence under every case",
  "Distances that are not a number are excluded. The OpenMP variant of the Hausdorff distance is off by default and not analysed.")
p("P01", "Smoothing takes only checked shortcuts; resampling keeps the path and its ends",
  "Smoothing a path by shortcuts keeps its first and last state, removes only states strictly between two states of the current path that the caller's check connected in travel order, skips at most the allowed fraction of the path at once, and stops after the allowed number of attempts or failures. "
  "Resampling part of a path returns its first state and then, interval by interval, evenly spaced states at most the wanted distance apart, ending each interval of positive length with its original state. "
  "Upsampling part of a path returns the wanted number of states, from the part's first to its last, always splitting the segment whose pieces are longest; a part that already has enough states is returned as it is.",
  ["inputs"], "every path, part, distance, interpolation, validity check and random sequence",
  "No test calls these; parts that do not start at the beginning, and the outcomes of random draws, are not sampled.",
  [H + "path_utils.hpp"],
  [("shortcuts", H + "path_utils.hpp ShortcutSmoothPath"), ("resampling", H + "path_utils.hpp ResamplePathPartial"), ("upsampling", H + "path_utils.hpp UpsamplePathPartial")],
  ["returned path, calls of the validity check"],
  "abstract interpretation with loop summaries: every round of smoothing in every case of the random draws, the list of states as nested loops whose indices and ratios are compared with the required ones",
  "The distance between two states and interpolation are the caller's. That smoothed paths get shorter is the caller's metric's matter and not decided.")
p("N01", "Grid neighbours are exactly the valid cells around; the grid search follows them",
  "The neighbours of a state in a two- or three-dimensional grid are the states one step away along any combination of axes, rounded to the grid, each once, without the state itself, exactly those that lie between the rounded limits and that the caller's check accepts. "
  "The deformation path across a grid of rows and columns starts at the first cell, ends at the last, never visits a cell twice, and goes from each cell to one of the eight around it that is inside the grid and accepted by the caller's check. "
  "It is empty exactly when there is no such path.",
  ["inputs"], "every state, limits, step, rounding and validity check; every grid size and every pattern of accepted cells",
  "No test calls these; which cells are accepted decides the order of exploration, and there are exponentially many patterns.",
  [H + "get_neighbours.hpp", "src/arc_utilities/first_order_deformation.cpp"],
  [("neighbours", H + "get_neighbours.hpp TwoDimensional8Connected/ThreeDimensional8Connected"), ("search", "src/arc_utilities/first_order_deformation.cpp GetFirstOrderDeformation")],
  ["returned neighbours, returned path"],
  "abstract interpretation with loop summaries: membership in the neighbour list is compared with the required condition for a symbolic cell; the search is judged by the invariants of its queue, explored cells and record of predecessors",
  "The first and last cell are not asked for validity by the code when the grid has one cell, nor is the first one ever. That the path is short is not promised.")
p("H01", "Single bits, lookups with a default, and color channels are exact and in range",
  "Setting a bit of a word of any width changes that bit to the value given and no other one, and reading a bit returns it, for every position of the word. "
  "Looking up a key returns the stored value if the key is there and the default otherwise. "
  "Colors made, converted, scaled or interpolated have every channel asked for equal to its value limited to 0..1 (whole values divided by 255, interpolation straight in every channel), change no other channel, and each of the 20 color codes has a color of its own.",
  ["inputs"], "every word, position, map, key and color",
  "The tests do not call these; positions above 31 of wide words went wrong.",
  [H + "arc_helpers.hpp"],
  [("bits", H + "arc_helpers.hpp SetBit/GetBit"), ("lookups", H + "arc_helpers.hpp RetrieveOrDefault"), ("colors", H + "arc_helpers.hpp RGBAColor, RGBAColorBuilder, ConvertColor, Multiply, InterpolateColor, GenerateUniqueColor")],
  ["returned word, bit, value, color"],
  "abstract interpretation: every bit of the result as a constant or one bit of the given word for each position, channels as formulas under every case",
  "Positions at or above the width are the caller's error. Multiply promises nothing about an alpha that was out of range before.")
p("R01", "Random generators are the published ones and forget their past when seeded",
  "Every generator (SplitMix64, XorShift128+, XorShift1024*) gives the sequence of its published algorithm from its state. "
  "Seeding it, at construction or at any later time, sets all of its state from the seed alone, so the same seed gives the same sequence whatever was drawn before. "
  "Discarding n numbers leaves the generator in the state after drawing n numbers.",
  ["histories", "inputs"], "every seed, every history of draws and seedings, every number of discarded numbers",
  "The tests seed each generator once; reseeding a used generator kept its position.",
  [H + "arc_helpers.hpp"],
  [("generators", H + "arc_helpers.hpp SplitMix64PRNG, XorShift128PlusPRNG, XorShift1024StarPRNG")],
  ["outputs"],
  "abstract interpretation of seeding from an arbitrary state with dependency analysis; formulas in an exclusive-or normal form; loop summary of discarding",
  "The quality of the sequences is the algorithms' matter.")

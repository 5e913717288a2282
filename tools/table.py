NOTE = "Generated-input search against an independent oracle: what was generated held, nothing is proved beyond it; deterministic for a given VERIF_SEED. Memory errors and undefined behaviour in the code under test count as violations (ASan/UBSan build), as do assertion failures and non-termination. Trusts the compiler, the harness and its reference model."
PBT = "property-based testing, "

prop("C01", "Grid A* returns a legal, minimum-cost path exactly when one exists",
     "For every occupancy grid, initial cell and goal cell, grid A* succeeds exactly when the goal is reachable by moves to free neighbouring cells (a diagonal move is allowed unless both cells it passes between are occupied). A returned path starts at the initial cell, ends at the goal, uses only legal moves and has the minimum total cost, which is also the reported cost; a failed search reports no path and infinite cost. Repeated searches with one planner, on a changed map, behave as first searches.",
     ["inputs", "histories"], "every grid up to the explored size, obstacle layout, initial and goal cell, cost and heuristic function pair (consistent), and sequence of searches and map edits",
     "The existing test runs one search on one fixed obstacle-free domain; optimality and completeness quantify over all obstacle layouts and queries.",
     ["planner/src/algo/a_star_n2.cpp", "planner/src/algo/a_star_n2.h", "planner/src/algo/a_star.h", "planner/src/utils/grid.cpp", "planner/src/utils/frontier.h"],
     [("grid neighbours and occupancy test of the propagator", "planner/src/algo/a_star_n2.cpp"), ("best-first loop with explored set and frontier", "planner/src/algo/a_star.h"), ("8-neighbourhood inside the grid", "planner/src/utils/grid.cpp")],
     PBT + "differential against Dijkstra", NOTE)

prop("C02", "A* search is optimal and complete for any propagator and heuristic",
     "For every finite weighted directed graph with non-negative costs presented through a state propagator, A* graph search with a consistent heuristic and A* tree search with an admissible heuristic succeed exactly when the goal is reachable, and return states and actions that chain from the initial state to the goal with the minimum total cost, which is the reported cost. Graph search expands no state twice; a failed search reports no path and infinite cost. Combining consistent heuristics, or adapting one to another state type, preserves all of this, and a planner can be reused for any number of queries.",
     ["inputs", "histories"], "every graph, heuristic, combination or adapter of heuristics, and sequence of queries",
     "Tests run one search on one integer plane; ties, duplicates, shortcuts in the frontier, zero-cost cycles and reuse are never exercised.",
     ["planner/src/algo/a_star.h", "planner/src/utils/frontier.h", "planner/src/utils/node.h"],
     [("frontier replacement on shortcut", "planner/src/algo/a_star.h"), ("explored set", "planner/src/algo/a_star.h"), ("goal propagation to heuristics", "planner/src/algo/a_star.h")],
     PBT + "differential against Dijkstra", NOTE)

prop("C03", "Bidirectional A* finds the same optimum as a one-directional search",
     "For every graph or grid, with mirrored forward and reverse propagators and a consistent pair of heuristics (given directly or built by averaging two consistent heuristics), bidirectional A* succeeds exactly when the goal is reachable, its path joins the initial state to the goal by existing transitions without repeating the meeting state, and the path cost and reported cost equal the true minimum. The averaged heuristics are zero at the goal of their direction, never exceed the remaining cost of the current query and add up to a constant. This holds for every query made with the same planner; one that is not initialised with both propagators and heuristics fails.",
     ["inputs", "histories"], "every graph, grid, consistent heuristic pair and sequence of queries",
     "The only test is one obstacle-free query whose path is not checked for cost; meeting-point and stopping errors show only on particular cost structures.",
     ["planner/src/algo/bidirectional_a_star.h", "planner/src/algo/a_star_n2.h", "planner/src/algo/a_star.h"],
     [("intersection of the two searches", "planner/src/algo/bidirectional_a_star.h"), ("stopping criterion", "planner/src/algo/bidirectional_a_star.h"), ("averaged heuristic pair", "planner/src/algo/bidirectional_a_star.h")],
     PBT + "differential against Dijkstra", NOTE)

prop("C04", "Hybrid A* heuristics give the cost of the relaxed problem they stand for",
     "The obstacle heuristic of every cell is the larger of the straight-line cost and the cost of the cheapest 8-connected path through free cells to the goal (in the cheaper driving direction, less one cell diagonal), and falls back to the straight-line cost for cells that cannot reach the goal or lie outside the map, after any number of updates. The non-holonomic heuristic of every state is the cost of the optimal Reeds-Shepp drive from the state to the goal, rounded to its table, and the straight-line cost beyond the table; its headings wrap. Neither ever reads outside its tables or returns a negative or infinite value.",
     ["inputs", "configurations", "histories"], "every occupancy grid, goal, query pose, set of cost multipliers, table size and resolution, and sequence of updates",
     "No test queries a heuristic; a wrong value only makes Hybrid A* slower or its paths worse, which its test cannot see.",
     ["planner/src/algo/heuristics.cpp", "planner/src/algo/heuristics.h"],
     [("flood from the goal cell", "planner/src/algo/heuristics.cpp"), ("table of Reeds-Shepp costs indexed by the relative goal", "planner/src/algo/heuristics.cpp")],
     PBT + "differential against Dijkstra and the Reeds-Shepp cost", NOTE)

prop("C05", "The open list is a priority queue with unique membership",
     "After any sequence of push, remove, pop, find, top, clear and iteration, the open list holds each key at most once (a second push of an equal element is refused and reports the element already there), always exposes and pops a best element under the given order, finds exactly its members, iterates over them in order, and reports the right size.",
     ["histories"], "every operation sequence, key collision pattern, tie pattern and ordering",
     "The unit test checks a handful of fixed pushes and pops; ties at the place of insertion or removal and hash collisions depend on the history.",
     ["planner/src/utils/frontier.h"],
     [("binary search for insertion and removal", "planner/src/utils/frontier.h"), ("hash set of members kept in step with the sorted vector", "planner/src/utils/frontier.h")],
     "model-based (stateful) property testing against a map", NOTE)

prop("C06", "RRT returns only validated, bounded motions within its budgets",
     "For every world, start, goal, parameters and sample sequence, a successful RRT search returns a path that starts exactly at the initial state, ends within unit distance of the goal, and whose every edge was accepted by the validator and is no longer than the maximum connection distance; a failed search returns no path. The search never exceeds its iteration or tree-size budget, extends from the tree state nearest to the sample, and with an unobstructed straight line and certain goal bias succeeds as soon as the budget allows the steps; it samples the goal with the configured probability. Reusing the planner gives the same guarantees.",
     ["inputs", "configurations", "histories"], "every obstacle layout, parameter set, sequence of random samples and sequence of queries",
     "The test runs one obstacle-free query with one parameter set and does not check edges or budgets.",
     ["planner/src/algo/rrt.h", "planner/src/utils/tree.h", "planner/src/paths/path_r2.cpp", "planner/src/state_space/state_space_r2.cpp"],
     [("steer, validate, extend loop", "planner/src/algo/rrt.h"), ("nearest node", "planner/src/utils/tree.h"), ("truncation of the connecting path", "planner/src/paths/path_r2.cpp")],
     PBT + "reference search on scripted samples + path invariants", NOTE)

prop("C07", "RRT* returns validated paths to the exact goal by cheapest connections",
     "For every world, start, goal, parameters and sample sequence, a successful RRT* search returns a path that starts at the initial state, ends exactly at the goal and whose every edge was accepted by the validator; a failed search returns no path, and iteration and tree-size budgets are never exceeded. Each new state is attached to the neighbour (among the logarithmically many nearest ones) with the valid connection of least total length from the start (or to the state it was extended from, if none of them can be connected), so the returned path has exactly the length this rule gives for the samples drawn; the goal is sampled with the configured probability.",
     ["inputs", "configurations", "histories"], "every obstacle layout, parameter set, sequence of random samples and sequence of queries",
     "The test runs one obstacle-free query; parent choice, validation of the rewired edge and repeated states depend on the sample history.",
     ["planner/src/algo/rrt_star.h", "planner/src/utils/tree.h"],
     [("best parent among the k nearest nodes", "planner/src/algo/rrt_star.h"), ("nearest-neighbour index", "planner/src/utils/tree.h")],
     PBT + "reference search on scripted samples + path invariants", NOTE)

prop("C08", "The search tree stays a tree and finds exact nearest neighbours",
     "After any sequence of extensions, reparentings and clears, every state added is held by exactly one node, every node but the root has the expected parent and no node is lost, and nearest and k-nearest queries return exactly the closest states at their true distances. Moving a node under one of its own descendants keeps a single connected tree; adding, removing, replacing and reparenting nodes keep parents, children, siblings, depth, ancestry and traversal orders mutually consistent.",
     ["histories"], "every operation sequence and point set, including ties and duplicated states",
     "Tests build one small tree; index rebuilds, ties, duplicates and reparenting to a descendant depend on the history.",
     ["planner/src/utils/tree.h", "planner/src/utils/node.h"],
     [("k-d tree kept in step with the node map", "planner/src/utils/tree.h"), ("ownership transfer on reparent", "planner/src/utils/node.h")],
     "model-based (stateful) property testing, brute-force neighbours", NOTE)

prop("C09", "Poses form the group SE(2); headings wrap; equality agrees with hashing",
     "For all poses, adding a pose applies the rotation and translation of the planar rigid motion, is associative with the zero pose neutral, subtraction inverts it (a + (b - a) = b, (a + b) - a = b), relative poses and distances do not depend on the frame, and every heading produced by construction, addition or subtraction is the given one modulo a turn and lies in [-pi, pi]. The positive modulo lies in [0, mod) (up to the rounding of tiny negative arguments) and is congruent to its argument. Equal poses and points have equal hashes, a pose with a wound-up heading is the same hash key as its wrapped form, and different poses are different keys.",
     ["inputs"], "every pose, angle and set of keys", "No existing test covers poses; the laws quantify over all positions, headings and windings.",
     ["planner/src/geometry/2dplane.h", "planner/src/utils/maths.h", "planner/src/core/hash.h"],
     [("composition and difference of poses", "planner/src/geometry/2dplane.h"), ("angle wrap", "planner/src/geometry/2dplane.h"), ("hash and equality of poses", "planner/src/geometry/2dplane.h")],
     PBT + "algebraic laws and model", NOTE)

prop("C10", "Every Reeds-Shepp path word drives from the start to the goal",
     "For all poses, turning radii and cost parameters, the path built from the word the solver returns starts at the start pose, ends at the goal pose, consists of at most five motions of non-negative finite length with curvature zero or one over the turning radius, and its length is the sum of the motions. Every single word that claims a solution (finite length) reaches the goal as well. Time-flipping and reflecting a segment mirror it exactly and twice is the identity.",
     ["inputs"], "every pair of poses, turning radius, cost parameters and each of the 48 words", "Tests check a handful of fixed poses; an error in one word formula shows only for goals where this word applies.",
     ["planner/src/geometry/reeds_shepp.cpp", "planner/src/geometry/reeds_shepp.h", "planner/src/paths/path_reeds_shepp.cpp"],
     [("closed-form words", "planner/src/geometry/reeds_shepp.cpp"), ("time-flip and reflection", "planner/src/geometry/reeds_shepp.cpp"), ("driving the motions", "planner/src/paths/path_reeds_shepp.cpp")],
     PBT + "forward simulation of the words", NOTE)

prop("C11", "Reeds-Shepp distance and path are the optimum over all words, under any cost",
     "For all poses the shortest distance and the shortest path have the least length over all words of the Reeds-Shepp family, scaled by the turning radius; the distance is symmetric, zero exactly for equal poses, invariant under moving or mirroring both poses, satisfies the triangle inequality and is at least the Euclidean distance. With reverse and forward multipliers and a direction-switching cost, the optimal path has the least cost over all words, and the cost of a path is the weighted sum of its motions plus the switching cost per change of direction. The word, path and connection entry points agree.",
     ["inputs"], "every pair of poses, turning radius and cost parameters", "Tests check fixed poses for reaching the goal, not optimality or cost.",
     ["planner/src/geometry/reeds_shepp.cpp", "planner/src/paths/path_reeds_shepp.cpp"],
     [("search over words", "planner/src/geometry/reeds_shepp.cpp"), ("segment cost", "planner/src/geometry/reeds_shepp.cpp")],
     PBT + "differential against an independent Reeds-Shepp solver + metric laws", NOTE)

prop("C12", "A path's ends, length, poses, directions and cusps describe one curve",
     "For every path (straight in the plane or in pose space, constant-steering, Reeds-Shepp) ratio 0 is the initial state, ratio 1 the final state, a ratio in between is the state at that fraction of the arc length, the list form of interpolation agrees with the single form, the direction reported at a ratio is that of the motion there, and the reported cusps are exactly the ratios at which the direction of motion changes.",
     ["inputs"], "every path of each kind and every ratio in [0, 1]", "No test interpolates paths except for reaching the goal; ends, empty motions and motion boundaries are never exercised.",
     ["planner/src/paths/path_reeds_shepp.cpp", "planner/src/paths/path_constant_steer.cpp", "planner/src/paths/path_r2.cpp", "planner/src/paths/path_se2.cpp", "planner/src/paths/path.h"],
     [("interpolation by arc length", "planner/src/paths/path_reeds_shepp.cpp"), ("cusp ratios", "planner/src/paths/path_reeds_shepp.cpp")],
     PBT + "differential against an arc-length model", NOTE)

prop("C13", "Truncating a path keeps exactly its beginning",
     "Cutting any path at a ratio leaves a path with the same initial state whose length is that fraction, whose final state is where it was cut, and whose poses, directions, cusps (and Reeds-Shepp cost) are those of the beginning of the original, however often it is cut.",
     ["inputs", "histories"], "every path of each kind, every ratio and sequence of cuts", "No test truncates a path; errors depend on which motion holds the cut.",
     ["planner/src/paths/path_reeds_shepp.cpp", "planner/src/paths/path_composite.h", "planner/src/paths/path_constant_steer.cpp", "planner/src/paths/path_r2.cpp", "planner/src/paths/path_se2.cpp"],
     [("truncation of the motions", "planner/src/paths/path_reeds_shepp.cpp"), ("truncation of the parts", "planner/src/paths/path_composite.h")],
     PBT + "differential against an arc-length model", NOTE)

prop("C14", "A composite path is the concatenation of its parts",
     "After any sequence of appending connected parts and truncating, a composite path starts where its first part starts, ends where its last part ends, has the sum of the lengths, and at every ratio has the pose and direction of the part that covers that arc length; its cusps are the changes of direction inside and between the parts. An empty composite reports no cusps and refuses interpolation.",
     ["histories"], "every sequence of parts (of every kind, also empty ones) and truncations, every ratio", "No test builds a composite of more than what one search produced.",
     ["planner/src/paths/path_composite.h", "planner/src/paths/path_composite.cpp"],
     [("lookup of the part at a ratio", "planner/src/paths/path_composite.h"), ("cusps across parts", "planner/src/paths/path_composite.cpp")],
     "model-based (stateful) property testing against an arc-length model", NOTE)

prop("C15", "The bicycle model drives exact circular arcs of its reference point",
     "For every wheelbase, reference point, pose, steering angle, distance and direction, the model ends where the closed-form motion of the rear axle puts the reference point; driving back undoes a motion, motions in a row add up, left and right are mirror images and the motion does not depend on the frame. The steering angle computed for a turning radius makes the reference point follow a circle of exactly this radius.",
     ["inputs", "configurations"], "every model, pose, steering, distance and direction", "No test covers the model; sign and offset errors only show for particular combinations.",
     ["planner/src/models/kinematic_bicycle_model.cpp", "planner/src/models/kinematic_bicycle_model.h"],
     [("closed-form propagation", "planner/src/models/kinematic_bicycle_model.cpp"), ("steering from radius", "planner/src/models/kinematic_bicycle_model.cpp")],
     PBT + "differential against a rear-axle model + group laws", NOTE)

prop("C16", "World, local and grid coordinates of an occupancy map agree",
     "For every map size, resolution and position, set in any order and any number of times, a point is found in the cell whose square contains it, the conversions between world, local and grid coordinates are mutually inverse, a point is inside the map exactly when its cell is, and bounded conversion of an outside point gives the invalid cell. A map without a size contains no point and refuses obstacles and occupancy queries.",
     ["inputs", "histories"], "every map size, resolution, position and point, and order of setting them", "No test converts coordinates; errors show only off the origin, near the border or after moving the map.",
     ["planner/src/state_validator/occupancy_map.h", "planner/src/state_validator/occupancy_map.cpp", "planner/src/state_validator/obstacle_list_occupancy_map.cpp"],
     [("frame conversions", "planner/src/state_validator/occupancy_map.h"), ("size and origin", "planner/src/state_validator/occupancy_map.cpp")],
     PBT + "differential against a coordinate model", NOTE)

prop("C17", "An obstacle occupies exactly the cells along its outline",
     "For every shape (rectangle, regular polygon, circle, polygon, nested composite) at every pose, each point of the outline inside the map lies in or next to an occupied cell, the cells of an edge form an unbroken chain, every occupied cell lies within about one cell of the outline, every occupied cell is inside the map, and the cells inside a map are the same whether or not the map shows the whole obstacle. A circle's outline encloses the circle.",
     ["inputs", "configurations"], "every shape, pose, map size, resolution and position", "No test rasterises an obstacle; gaps and stray cells depend on slope and on where edges leave the map.",
     ["planner/src/state_validator/obstacle.cpp", "planner/src/state_validator/obstacle.h"],
     [("outline vertices of the shapes", "planner/src/state_validator/obstacle.cpp"), ("line rasterisation", "planner/src/state_validator/obstacle.cpp")],
     PBT + "geometric reference + metamorphic window relation", NOTE)

prop("C18", "The occupancy grid is the union of the obstacles that are present",
     "After any sequence of adding, removing, moving and re-adding obstacles, a cell is occupied exactly when an obstacle that is present covered it when it was added, however obstacles overlap; its value identifies one of the obstacles covering it, different obstacles have different values, adding a present obstacle and removing an absent one are refused without effect, and the number of obstacles is reported right.",
     ["histories"], "every sequence of additions, removals and moves of overlapping obstacles", "No test adds or removes more than a fixed obstacle; shared cells and moved obstacles only matter in particular orders.",
     ["planner/src/state_validator/obstacle_list_occupancy_map.cpp", "planner/src/state_validator/obstacle_list_occupancy_map.h"],
     [("bookkeeping of cells and identifiers", "planner/src/state_validator/obstacle_list_occupancy_map.cpp")],
     "model-based (stateful) property testing against a set of obstacles", NOTE)

prop("C19", "Distances to obstacles follow every history of changes",
     "After any sequence of obstacle insertions and removals followed by an update, the nearest obstacle reported for each cell is a cell that is occupied now, the reported distance is the distance to it and exceeds the true distance to the closest occupied cell by at most a quarter of a cell (not at all next to an obstacle); without obstacles no nearest obstacle and a practically infinite distance are reported. Queries by world position answer for the cell of the position and report failure outside the map.",
     ["histories"], "every sequence of cell and obstacle changes and updates, with or without a Voronoi diagram attached", "No test checks distances; the incremental update is only wrong for particular orders of insertion and removal.",
     ["planner/src/state_validator/gvd.cpp", "planner/src/state_validator/gvd.h", "planner/src/state_validator/obstacle_list_occupancy_map.cpp"],
     [("raise and lower waves of the incremental distance transform", "planner/src/state_validator/gvd.cpp"), ("world position queries", "planner/src/state_validator/gvd.cpp")],
     "model-based (stateful) property testing against brute-force distances", NOTE)

prop("C20", "The Voronoi diagram separates the obstacles and defines the potential field",
     "After any sequence of obstacle changes and updates, a Voronoi edge runs between every two neighbouring cells that are nearest to different obstacles (not touching or adjacent to them), every edge cell is free and lies where the nearest obstacle changes, there is no edge without obstacles, and the diagram does not depend on whether it was created before or after the obstacles. The nearest edge reported for each cell is an edge now and its distance exceeds the true one by at most a quarter of a cell; the path cost of each cell is the Voronoi potential field of its two distances, between 0 and 1. Queries by world position fail outside the map.",
     ["histories"], "every sequence of obstacle changes and updates, and time of creation of the diagram", "No test looks at the diagram; wrong edges only make paths and costs worse.",
     ["planner/src/state_validator/gvd.cpp", "planner/src/state_validator/gvd.h"],
     [("edge detection between waves of different obstacles", "planner/src/state_validator/gvd.cpp"), ("distance transform of the edges", "planner/src/state_validator/gvd.cpp"), ("potential field", "planner/src/state_validator/gvd.cpp")],
     "model-based (stateful) property testing against brute-force distances and regions", NOTE)

prop("C21", "States and paths accepted by the map validator are safe",
     "For every map, obstacle set, safe radius and map position, a state is accepted exactly when it is within the bounds and its cell is at least the safe radius from the nearest obstacle. A path is accepted only if both ends are valid and no pose along it leaves the map or comes closer to an obstacle than the safe radius less the sampling tolerance (half a sampling step and the width of the cells), and a path that keeps clear is accepted. For a refused path the last valid ratio (or pose) is valid, everything before it is safe, and an invalid state follows within the distance the validator could know to be free.",
     ["inputs", "configurations"], "every map, obstacle set, safe radius, sampling step, state and path of every kind", "No test validates a state or path against obstacles; errors in the sampling show only for paths that graze an obstacle.",
     ["planner/src/state_validator/state_validator_occupancy_map.cpp", "planner/src/state_validator/state_validator.h", "planner/src/state_validator/state_validator_free.h"],
     [("adaptive sampling along the path", "planner/src/state_validator/state_validator_occupancy_map.cpp"), ("bounds and clearance of a state", "planner/src/state_validator/state_validator_occupancy_map.cpp")],
     PBT + "dense sampling against brute-force distances", NOTE)

prop("C22", "State spaces sample, clamp and validate against their bounds",
     "For every box, the planar and pose state spaces accept a state exactly when every coordinate is within the bounds, enforcing the bounds moves each coordinate to the nearest allowed value and nothing else, uniform samples lie in the box and cover it uniformly with independent coordinates, Gaussian samples lie in the box and follow the given mean and deviation, and asking for a number of samples returns that many.",
     ["inputs", "configurations"], "every box, state and random sequence", "No test covers sampling or bounds.",
     ["planner/src/state_space/state_space.h", "planner/src/state_space/state_space_r2.cpp", "planner/src/state_space/state_space_se2.cpp", "planner/src/utils/random.h"],
     [("clamping and validation per coordinate", "planner/src/state_space/state_space_se2.cpp"), ("lists of samples", "planner/src/state_space/state_space.h")],
     PBT + "reference clamp + statistical limits at eight deviations", NOTE)

prop("C23", "Grids store cells independently and know their neighbours",
     "For every grid size and cell, the neighbours are exactly the up to eight surrounding cells inside the grid, adjacency and diagonality agree with them and are symmetric, invalid cells have no neighbours, equal cells hash equally, a grid keeps the last value written to each cell, and a non-positive size is refused.",
     ["inputs", "histories"], "every grid size, cell pair and sequence of writes", "No test covers grids directly.",
     ["planner/src/utils/grid.cpp", "planner/src/utils/grid.h"],
     [("neighbour enumeration", "planner/src/utils/grid.cpp"), ("row-major storage", "planner/src/utils/grid.h")],
     PBT + "brute-force model", NOTE)

prop("C25", "The smoother keeps ends and cusps, reports safety and follows its gradients",
     "For every path, set of cusps, map and weights, the smoothed path has as many poses, with both ends and all cusps where they were; a non-negative status means that every pose is valid and a negative one that some pose is not; paths of fewer than five poses are returned unchanged. Each iteration moves the other poses down the gradient of the weighted terms (distance to the original path, smoothness, clearance, Voronoi field, excess curvature), with nothing to push or pull where there is no obstacle or edge: a straight path on an empty map stays as it is. The result does not depend on earlier calls.",
     ["inputs", "configurations", "histories"], "every path, cusp set, obstacle set, weight set and sequence of calls", "No test runs the smoother on its own; a wrong sign or a phantom obstacle still yields a path.",
     ["planner/src/algo/smoother.cpp", "planner/src/algo/smoother.h"],
     [("choice of the poses to optimise", "planner/src/algo/smoother.cpp"), ("gradients of the terms", "planner/src/algo/smoother.cpp"), ("final safety check", "planner/src/algo/smoother.cpp")],
     PBT + "numerical gradients + reference descent + invariants", NOTE)

prop("C24", "Hybrid A* returns connected, drivable and safe paths to the goal",
     "For every map and query, a successful Hybrid A* search returns poses from the initial state to the goal state. Its motions chain without gaps, never turn tighter than the minimum radius, never slide sideways, stay in the map and keep the safe radius within the validator's tolerance; the poses sample them in order at about the requested spacing and include every cusp and both ends (or are the smoothed, valid poses). The reported cost is the driving, reversing, switching and Voronoi cost of those motions. A search from or to an invalid state fails, a failed search reports no path and infinite cost, a search to the initial state succeeds, and one whose direct path, from the initial state or from any state it expanded, is short and valid succeeds at no higher cost. The explored motions form a tree rooted at the initial state: every expanded state has the valid motions of each steering angle, forwards and backwards, except those that end where the search already was. All of this holds for every search of one planner while the obstacles change, and a planner initialised again behaves as a new one.",
     ["inputs", "configurations", "histories"], "every map, query, parameter set, random choice and sequence of searches and obstacle changes", "The existing test plans once between two poses on an empty map and looks at the status only.",
     ["planner/src/algo/hybrid_a_star.cpp", "planner/src/algo/hybrid_a_star.h", "planner/src/algo/a_star.h", "planner/src/algo/smoother.cpp", "planner/src/paths/path_constant_steer.cpp", "planner/src/paths/path_composite.h"],
     [("propagation by constant steering and Reeds-Shepp paths", "planner/src/algo/hybrid_a_star.cpp"), ("transition costs", "planner/src/algo/hybrid_a_star.cpp"), ("sampling of the graph path and smoothing", "planner/src/algo/hybrid_a_star.cpp")],
     PBT + "invariants of the motions against brute-force distances and costs", NOTE)

prop("C26", "The Python module gives the results of the library",
     "For every call of the Python module (poses, points, state spaces, paths and Reeds-Shepp path segments, shapes, obstacles, occupancy maps, distance maps and Voronoi diagrams, validators, grid A*, Hybrid A*), the value returned to Python equals the one the library computes for the same arguments, outputs that C++ returns by reference included. Maps, validators, paths, path connections, shapes, heuristics and propagators implemented in Python, and kept alive there, are called by the library with the right arguments and their results are used. Objects returned to Python stay usable after the objects they came from are dropped.",
     ["inputs", "histories"], "every argument of every bound function, every Python implementation of an extension point, and every order in which Python drops its references",
     "The four Python tests import the module and run fixed examples; most bindings are never called.",
     ["interfaces/python/src/pyplanning.cpp"],
     [("binding of functions, overloads and ownership", "interfaces/python/src/pyplanning.cpp"), ("trampolines of the extension points", "interfaces/python/src/pyplanning.cpp")],
     PBT + "differential between the embedded module and direct C++ calls", NOTE)

prop("C27", "Pictures of the potential field and heuristic show every cell truthfully",
     "For every map and history of updates, the pictures written of the Voronoi potential field and of the obstacle heuristic are valid binary pixel maps as wide as the map has rows and as high as it has columns, with the first column of the map at the bottom. Occupied cells and cells without a value are black; a free cell of the potential field has the hue of its nearest obstacle's number and gets darker with the path cost; a cell of the heuristic gets darker in proportion to its cost, from white at the goal to black at the farthest reached cell. A file that cannot be opened does no harm.",
     ["inputs", "histories"], "every map, obstacle set, goal, sequence of updates and file name",
     "No test writes a picture.",
     ["planner/src/state_validator/gvd.cpp", "planner/src/algo/heuristics.cpp"],
     [("picture of the potential field", "planner/src/state_validator/gvd.cpp"), ("picture of the cost of the heuristic", "planner/src/algo/heuristics.cpp")],
     PBT + "decoder and recomputed colours", NOTE)

prop("C28", "Profiling traces are complete, well formed and attributed to their threads",
     "With profiling enabled, for every set of threads and nesting of profiled scopes, the trace file written when the session ends is valid JSON with exactly one event per profiled scope, with its name, thread, start and non-negative duration, and the events of one thread nest like the scopes; every session starts a new trace and a trace file that cannot be opened does no harm. Singletons are created once, on first use, also when several threads ask at the same time (thread-safe variant), live until released and can be created again; the timer measures the time since its last reset.",
     ["inputs", "schedules", "histories"], "every number of threads, interleaving, nesting of scopes, and sequence of sessions, requests and releases",
     "No test enables profiling; lost or torn events depend on the interleaving.",
     ["planner/src/debug/profiler.cpp", "planner/src/debug/profiler.h", "planner/src/utils/singleton.h", "planner/src/core/timer.h"],
     [("serialised writing of events", "planner/src/debug/profiler.cpp"), ("session header and footer", "planner/src/debug/profiler.cpp"), ("scope timers", "planner/src/debug/profiler.h"), ("singletons", "planner/src/utils/singleton.h")],
     PBT + "random scope trees on several threads against a JSON reader", NOTE)

prop("C29", "Planners, maps and paths do not influence each other",
     "What a search, tree, open list, heuristic, map, distance map, Voronoi diagram, validator, path or smoother computes depends only on its own inputs and the operations called on it: it is the same whether it runs alone in a fresh process, after any other objects (of the same or another kind, with other sizes, resolutions, costs or goals) have been used, while the operations of others are interleaved with its own (also from inside the callbacks of a search), or while others run on other threads. Only searches and samples that draw random numbers share something, the one random stream of the process.",
     ["inputs", "schedules", "histories"], "every set of objects, every order, every interleaving of their operations and every schedule of threads that use separate objects",
     "Every test uses one object on one thread; state kept in a static variable, cache or shared default shows only when a second object with other inputs is used in the same process.",
     ["planner/src/algo/a_star.h", "planner/src/algo/heuristics.cpp", "planner/src/algo/hybrid_a_star.cpp", "planner/src/geometry/reeds_shepp.cpp", "planner/src/state_validator/gvd.cpp", "planner/src/state_validator/obstacle_list_occupancy_map.cpp", "planner/src/utils/tree.h"],
     [("search state held per object", "planner/src/algo/a_star.h"), ("lookup tables held per heuristic", "planner/src/algo/heuristics.cpp"), ("open list and cells held per distance map", "planner/src/state_validator/gvd.cpp")],
     PBT + "generated programs and schedules, each program alone in a fresh process as the oracle", NOTE)

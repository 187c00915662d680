"""The properties (source of properties.jsonl) -- see gen.py."""
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, technique=technique, note=note, observe=observe))


SAN = "runtime monitoring: "
T0 = "The 26 stable tests sample fixed values of vector, matrix, geometry, triangle and tuple helpers; "

P("C01", "Every job handed to the workers runs exactly once, in order, untouched",
  "Every job pushed to a job queue or scheduled on a running dispatcher is executed exactly once, on a worker thread, with the payload it was submitted with, and is never lost, duplicated or stranded while a worker sleeps. Jobs of one producer are obtained in submission order, idle workers pick up jobs concurrently, and an atomic counter releases its waiter only after every party has decremented it, with everything those parties wrote visible. No interleaving of producers and consumers involves a data race.",
  ["schedules", "histories"], "all interleavings of any number of producers, consumers and workers, all numbers of jobs (including jobs that schedule jobs), with arbitrary delays at every lock, wait, notify and atomic operation",
  T0 + "none starts a worker thread, and exactly-once delivery is a statement about interleavings that a fixed test cannot sample.",
  ["include/edyn/parallel/job_queue.hpp", "src/edyn/parallel/job_queue.cpp", "src/edyn/parallel/job_dispatcher.cpp", "include/edyn/parallel/atomic_counter_sync.hpp", "include/edyn/parallel/job.hpp"],
  [("job queue", "include/edyn/parallel/job_queue.hpp"), ("dispatcher", "src/edyn/parallel/job_dispatcher.cpp"), ("counter", "include/edyn/parallel/atomic_counter_sync.hpp")],
  "trace monitors over job histories under ThreadSanitizer and delay injection", "Exploration: seeded schedules with injected delays at pthread primitives, plain and under TSan; a lost job is decided by a generous timeout confirmed twice.")
P("C02", "Workers start, stop and restart cleanly at any moment",
  "Stopping a worker or dispatcher always terminates and joins its threads, whatever moment the stop is requested (including before a worker thread has begun running), after which no job runs; a dispatcher can be started again any number of times and then executes jobs as when new. Its reported running state, number of workers and load are accurate when quiescent and the load never wraps below zero. A thread started for the engine runs its function exactly once, on its own thread, with its argument.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of start, submissions, stop, restart and destruction",
  T0 + "no test starts or stops a worker; start/stop races exist only in particular schedules.",
  ["src/edyn/parallel/job_dispatcher.cpp", "include/edyn/parallel/worker.hpp", "include/edyn/parallel/job_dispatcher.hpp", "src/edyn/context/start_thread.cpp"],
  [("worker run/stop", "include/edyn/parallel/worker.hpp"), ("dispatcher start/stop", "src/edyn/parallel/job_dispatcher.cpp")],
  "life-cycle monitors under ThreadSanitizer and delay injection", "Exploration of seeded life cycles; non-termination is decided by a watchdog, re-run once before it is reported.")
P("C04", "Whatever is written to an archive is read back identically",
  "Reading back from a memory buffer, fixed-size buffer or file what was written to it yields an equal value for every serializable value: numbers, booleans, strings, vectors (of booleans too), arrays, pairs, optionals, maps, variants, math types, materials, filters, action lists and histories, trees and triangle meshes, and every networked component, shape, constraint, contact and network packet, at any byte offset and also when the destination already holds something else. Writing never modifies the value or bytes already in the buffer, the bytes written for a given value are always the same, and the predicted serialized size equals the number of bytes written. Containers too long for the format are truncated to a readable prefix without disturbing what follows.",
  ["inputs", "histories"], "all serializable values, compositions, offsets and previous contents of the destination",
  T0 + "no stable test serializes anything.",
  ["include/edyn/serialization/std_s11n.hpp", "include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/file_archive.hpp", "include/edyn/serialization/math_s11n.hpp", "include/edyn/serialization/triangle_mesh_s11n.hpp", "include/edyn/serialization/static_tree_s11n.hpp", "include/edyn/comp/action_list.hpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/comp/material.hpp", "include/edyn/comp/collision_filter.hpp", "include/edyn/networking/packet/edyn_packet.hpp", "include/edyn/networking/util/pool_snapshot.hpp", "include/edyn/constraints/constraint.hpp"],
  [("archives", "include/edyn/serialization/memory_archive.hpp"), ("containers", "include/edyn/serialization/std_s11n.hpp"), ("meshes", "include/edyn/serialization/triangle_mesh_s11n.hpp")],
  "round-trip monitors over generated values under AddressSanitizer and UBSan", "Exploration of generated values; equality and byte-level oracles; exact-size heap buffers.")
P("C05", "Truncated or corrupted input never harms the reader",
  "Decoding arbitrary, truncated or corrupted bytes as any value, component, shape or network packet never reads or writes out of bounds, never invokes undefined behaviour and always terminates. Input that ends before the value does is reported as a failure that persists, after which destinations are left untouched; whatever was decoded is a valid value of its type that can be used and written again. Writing more than a fixed-size buffer can hold is reported and never writes past its end.",
  ["inputs", "fault_sequences"], "all byte strings, all truncation points and corruptions of valid encodings, all buffer sizes",
  T0 + "no stable test decodes malformed bytes, and memory safety must hold for every byte string a peer may send.",
  ["include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/std_s11n.hpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/comp/action_list.hpp", "include/edyn/serialization/triangle_mesh_s11n.hpp", "include/edyn/networking/packet/registry_snapshot.hpp", "include/edyn/networking/util/pool_snapshot.hpp", "include/edyn/shapes/convex_mesh.hpp"],
  [("bounds checking", "include/edyn/serialization/memory_archive.hpp"), ("container readers", "include/edyn/serialization/std_s11n.hpp")],
  "AddressSanitizer/UBSan plus failure-state monitors on mutated encodings", "Exploration: every prefix of small encodings, sampled cuts and corruptions of large ones.")
P("C06", "Bounding volume trees hold every object and find exactly what a query overlaps",
  "Building a static bounding volume tree puts every object in exactly one leaf, with no more objects per leaf than requested, and its root encloses exactly all objects. A box query visits, once each, exactly the leaves whose box overlaps it (touching included), and a ray query visits every leaf the segment passes through, whatever the objects: duplicates, degenerate or flat boxes, coincident centres, a single one. Tree traversal visits exactly the leaves all of whose ancestors pass the test.",
  ["inputs", "configurations"], "all sets of boxes, leaf sizes, query boxes and segments",
  T0 + "no stable test builds or queries a tree.",
  ["include/edyn/collision/static_tree.hpp", "include/edyn/collision/query_tree.hpp", "include/edyn/comp/aabb.hpp", "src/edyn/math/geom.cpp"],
  [("tree construction", "include/edyn/collision/static_tree.hpp"), ("traversal", "include/edyn/collision/query_tree.hpp")],
  "leaf-partition and query-completeness monitors against exhaustive search under AddressSanitizer", "Exploration; oracle: brute force over all objects; rays within rounding of a box are not judged.")
P("C07", "Triangle meshes report exact topology, adjacency and material",
  "From vertices and indices a triangle mesh derives the edges shared by its faces, the faces sharing each edge, the normals of adjacent faces, and which edges and vertices are convex or on the boundary, independently of vertex numbering. Box and ray queries visit exactly the triangles concerned; friction, restitution and material at a point of a face or edge interpolate linearly between its vertices; and projecting an axis into the Voronoi region of a feature never yields an axis outside that region.",
  ["inputs", "configurations"], "all meshes (open, closed, flat, with separate or fan triangles), vertex numberings, scales, positions and query volumes",
  T0 + "no stable test creates a triangle mesh.",
  ["include/edyn/shapes/triangle_mesh.hpp", "src/edyn/shapes/triangle_mesh.cpp", "include/edyn/collision/static_tree.hpp", "src/edyn/math/triangle.cpp"],
  [("topology", "src/edyn/shapes/triangle_mesh.cpp"), ("queries", "include/edyn/shapes/triangle_mesh.hpp")],
  "topology, query and interpolation monitors against an independent reconstruction", "Exploration of generated meshes; decisions within rounding are not judged.")
P("C08", "Closest-point queries return the true closest points",
  "Closest-point and distance queries between points, lines, segments, planes, discs, circles, triangles and boxes return points that lie on the shapes concerned, parameters and signs consistent with those points, the distance between them, and no other pair of points is closer. This holds for parallel, coincident, degenerate, coplanar and concentric configurations, in every orientation and coordinate axis, within floating-point tolerance.",
  ["inputs", "configurations"], "all positions, orientations, axes and sizes including parallel, touching and degenerate ones, in single and double precision",
  T0 + "a handful of fixed segment and circle configurations are tested; optimality quantifies over all of them.",
  ["include/edyn/math/geom.hpp", "src/edyn/math/geom.cpp"],
  [("closest points", "src/edyn/math/geom.cpp")],
  "optimality monitors against independent high-precision search", "Exploration; oracle: long double brute-force/analytic minimisation, tolerance proportional to rounding. Global optimality of the iterative circle queries is only claimed where the reference is unambiguous.")
P("C09", "Intersection and overlap tests agree with exact geometry",
  "Intersection, ray-cast and containment queries on segments, lines, circles, boxes, spheres, cylinders, triangles and polygons report a hit exactly when the shapes meet, with parameters inside their valid range identifying points that lie on both shapes, the first hit for rays, correct region and containment flags, and the same answer under symmetry (swapped arguments, mirrored axes, rotated frames). Only configurations within rounding of the boundary may go either way.",
  ["inputs", "configurations"], "all pairs of shapes and rays including parallel, tangent, contained and degenerate ones, in single and double precision",
  T0 + "tests sample about a dozen segment and box cases.",
  ["include/edyn/math/geom.hpp", "src/edyn/math/geom.cpp", "include/edyn/math/triangle.hpp", "src/edyn/math/triangle.cpp", "include/edyn/comp/aabb.hpp"],
  [("intersections", "src/edyn/math/geom.cpp"), ("triangle queries", "src/edyn/math/triangle.cpp"), ("AABB", "include/edyn/comp/aabb.hpp")],
  "decision monitors against high-precision references", "Exploration; cases within rounding of the decision boundary are not judged.")
P("C10", "Support mappings find the extreme point and feature of every shape",
  "For every direction, the support point of a box, cylinder, capsule, circle, triangle, point cloud or polyhedron belongs to the shape and no point of it lies further along that direction, and support projections equal that maximum, in local, rotated and world frames. Support features contain exactly the vertices within the threshold of the maximum, and a box's vertices, edges, faces, normals, tangents and indices are mutually consistent and counter-clockwise.",
  ["inputs", "configurations"], "all shapes, sizes, axes, orientations and directions, including axis-aligned and near-tie directions",
  T0 + "no stable test evaluates a support function.",
  ["include/edyn/util/shape_util.hpp", "src/edyn/util/shape_util.cpp", "src/edyn/shapes/box_shape.cpp", "src/edyn/shapes/cylinder_shape.cpp", "src/edyn/math/triangle.cpp", "include/edyn/shapes/capsule_shape.hpp", "src/edyn/math/geom.cpp"],
  [("support functions", "src/edyn/util/shape_util.cpp"), ("box features", "src/edyn/shapes/box_shape.cpp"), ("triangle features", "src/edyn/math/triangle.cpp")],
  "extremality monitors against exhaustive evaluation", "Exploration; oracle enumerates vertices or uses closed forms in double precision.")
P("C11", "Convex hulls and polygons are computed correctly",
  "The planar convex hull of any point set is a counter-clockwise list of distinct given points containing every given point within the tolerance; point-in-polygon and closest-point-on-polygon queries agree with the exact answer, the contact polygon of a cloud contains exactly the vertices near the maximum, and triangle sorting and generated grid meshes produce upward, counter-clockwise triangles covering the requested area.",
  ["inputs"], "all planar point sets and convex polygons including collinear, duplicated and nearly degenerate ones",
  T0 + "no stable test computes a hull or polygon query.",
  ["src/edyn/util/shape_util.cpp", "include/edyn/util/shape_util.hpp", "src/edyn/math/geom.cpp", "include/edyn/math/geom.hpp"],
  [("convex hull", "src/edyn/util/shape_util.cpp"), ("polygon queries", "src/edyn/math/geom.cpp")],
  "hull and polygon monitors with exhaustive containment oracles", "Exploration of generated point sets.")
P("C12", "Vector, matrix and quaternion arithmetic obeys rotation algebra",
  "Vector, matrix and quaternion operations compute the textbook quantity: rotations preserve lengths and handedness, compose, invert and convert between quaternion, matrix, axis-angle and Euler forms without changing the rotation they denote, interpolation moves along the shortest arc at constant rate, and integrating an angular velocity keeps orientations unit length and turns by the right angle. Results stay finite and accurate for coincident, opposite, tiny and nearly singular arguments.",
  ["inputs", "configurations"], "all vectors, matrices and rotations, including the identity, half turns, opposite vectors and arguments that rounding pushes past one",
  T0 + "vector and matrix tests check a few constants and no quaternion.",
  ["include/edyn/math/vector3.hpp", "include/edyn/math/vector2.hpp", "include/edyn/math/vector2_3_util.hpp", "include/edyn/math/matrix3x3.hpp", "include/edyn/math/quaternion.hpp", "src/edyn/math/quaternion.cpp", "include/edyn/math/math.hpp", "include/edyn/math/scalar.hpp", "include/edyn/math/transform.hpp", "include/edyn/math/geom.hpp"],
  [("quaternions", "src/edyn/math/quaternion.cpp"), ("matrices", "include/edyn/math/matrix3x3.hpp"), ("vectors", "include/edyn/math/vector3.hpp")],
  "algebraic monitors against a long-double reference", "Exploration with rounding-scaled tolerances.")
P("C13", "Contact point reduction keeps a maximal, valid contact patch",
  "Adding a contact point to a set of limited size either appends, replaces one existing point or ignores it, never exceeds the capacity or touches other points, and merges only points within the similarity threshold. The kept set spans the contact patch: extent and area never shrink when a point is added, a point off the current line or outside the current triangle is kept, and when full the best available area is chosen.",
  ["inputs", "histories"], "all sequences of points, including collinear, coincident, coplanar and interior ones",
  T0 + "no stable test inserts contact points.",
  ["include/edyn/math/geom.hpp", "src/edyn/math/geom.cpp"],
  [("point selection", "src/edyn/math/geom.cpp")],
  "patch-area monitors over insertion histories", "Exploration of generated insertion sequences; oracle recomputes spans and areas exhaustively.")
P("C14", "Solving constraint rows respects limits and conserves momentum",
  "Solving a constraint row drives the relative velocity to its target unless the accumulated impulse reaches its limits, never leaves those limits, returns exactly the change it made, applies equal and opposite impulses, and never accelerates bodies of infinite mass; warm starting reproduces the accumulated impulse. Spin friction stays within its cone and only opposes spin, and cached rows come back in order, complete and unaltered.",
  ["inputs", "histories"], "all masses, inertias, Jacobians, limits, errors, iteration counts and systems of several rows",
  T0 + "no stable test solves a constraint.",
  ["include/edyn/dynamics/row_cache.hpp", "include/edyn/constraints/constraint_row.hpp", "include/edyn/constraints/constraint_row_spin_friction.hpp", "src/edyn/constraints/constraint_row.cpp", "src/edyn/dynamics/solver.cpp"],
  [("row solver", "src/edyn/constraints/constraint_row.cpp"), ("row caches", "include/edyn/dynamics/row_cache.hpp")],
  "conservation and complementarity monitors on generated row systems", "Exploration; oracle evaluates the velocity constraint in long double.")
P("C15", "Core containers behave like their abstract models",
  "A free list hands out indices not in use, keeps every live element intact and destroys an element exactly when removed; nested arrays return exactly what was pushed, array by array; and vector, array and tuple helpers find, erase and visit exactly the requested element.",
  ["histories", "inputs"], "all sequences of operations",
  T0 + "only tuple visitation has a test, with one tuple.",
  ["include/edyn/core/free_list.hpp", "include/edyn/core/flat_nested_array.hpp", "include/edyn/util/vector_util.hpp", "include/edyn/util/array_util.hpp", "include/edyn/util/tuple_util.hpp"],
  [("free list", "include/edyn/core/free_list.hpp"), ("nested array", "include/edyn/core/flat_nested_array.hpp")],
  "model-based monitors under AddressSanitizer", "Exploration of random operation histories against reference models.")
P("C16", "Material pairs are unordered and mix by symmetric rules",
  "An unordered pair equals its mirror and its ordering is a strict weak order consistent with equality and independent of the order of its members, so ordered containers keyed by it behave. A material mixing table returns exactly the last material set for a pair in either order and reports pairs never set as absent, and default mixing of friction, restitution, stiffness and damping is symmetric and follows the documented rule (including perfectly rigid materials).",
  ["inputs", "histories"], "all pairs of identifiers, all sequences of table updates, all coefficient pairs",
  T0 + "no stable test uses pairs or materials.",
  ["include/edyn/core/unordered_pair.hpp", "include/edyn/dynamics/material_mixing.hpp", "include/edyn/comp/material.hpp", "include/edyn/config/constants.hpp"],
  [("pair order", "include/edyn/core/unordered_pair.hpp"), ("mixing table", "include/edyn/dynamics/material_mixing.hpp")],
  "order-axiom and model monitors", "Exploration.")
P("C18", "Networked actions are executed exactly once and in order",
  "However packets carrying overlapping action histories are lost, duplicated or reordered, merging them keeps one entry per action, in time order, with its own data; erasing until a time removes exactly the entries before it, and the actions executed are exactly those delivered at least once, each one once, oldest first. Merging action lists appends in order and leaves the source unchanged.",
  ["histories", "fault_sequences"], "all sequences of actions, packet losses, duplications, reorderings and executions",
  T0 + "no stable test touches actions.",
  ["include/edyn/networking/comp/action_history.hpp", "include/edyn/comp/action_list.hpp", "include/edyn/comp/merge_component.hpp"],
  [("history merge", "include/edyn/networking/comp/action_history.hpp"), ("action lists", "include/edyn/comp/action_list.hpp")],
  "exactly-once delivery monitor over simulated lossy channels", "Exploration of seeded loss/duplication patterns.")
P("C17", "Mass properties and bounding boxes match the exact geometry of every shape",
  "The volume, centroid and moment of inertia computed for every solid shape (sphere, box, cylinder, capsule, convex polyhedron, compound of any of these with any placement) are those of the exact solid of uniform density, for every size, axis and mass, including off-diagonal elements of the tensor and the parallel axis theorem. The bounding box of a shape at any position and orientation contains the whole shape and is tight (for compounds: no larger than the boxes of its children), transformed boxes enclose exactly the transformed box, and a compound visits exactly the children whose boxes a query overlaps.",
  ["inputs"], "all dimensions, masses, axes, polyhedra, compounds, positions and orientations",
  T0 + "no stable test computes a volume, a moment of inertia or a bounding box; wrong ones only show as subtly wrong motion.",
  ["src/edyn/math/shape_volume.cpp", "src/edyn/dynamics/moment_of_inertia.cpp", "src/edyn/util/aabb_util.cpp", "src/edyn/util/shape_util.cpp", "src/edyn/shapes/compound_shape.cpp", "include/edyn/shapes/compound_shape.hpp"],
  [("volumes", "src/edyn/math/shape_volume.cpp"), ("inertia", "src/edyn/dynamics/moment_of_inertia.cpp"), ("boxes", "src/edyn/util/aabb_util.cpp"), ("centroid", "src/edyn/util/shape_util.cpp")],
  "differential monitors against exact integrals in double precision under AddressSanitizer and UBSan", "Exploration: random shapes against closed forms and tetrahedral integrals in double precision.")
P("C19", "Convex meshes and OBJ files load to the exact solid they describe",
  "A convex mesh built from vertices and faces reports each face's outward normal, each edge exactly once with its two faces and end points consistently oriented, each vertex's exact neighbours, and one representative for every distinct face normal and edge direction, also when it is recalculated or its contents are replaced; its rotated copy is the exact rotation for any orientation, its centroid is moved to the origin, valid solids are accepted and dented ones rejected. Loading an OBJ file, from disk or a stream, yields every object with its name, vertices scaled, rotated and translated in that order, vertex colours and faces with indices local to the object, for all index styles; triangulation tiles each polygon with its winding, and polyhedra and compounds reproduce every vertex in place around their centroids. A missing file is reported and nothing is loaded.",
  ["inputs", "histories"], "all convex polyhedra, orientations and well-formed OBJ files with any number of objects, polygon sizes, index styles, colours and transforms",
  T0 + "no stable test builds a convex mesh or parses an OBJ file.",
  ["src/edyn/shapes/convex_mesh.cpp", "include/edyn/shapes/convex_mesh.hpp", "src/edyn/sys/update_rotated_meshes.cpp", "src/edyn/util/shape_io.cpp", "src/edyn/util/shape_util.cpp"],
  [("convex mesh", "src/edyn/shapes/convex_mesh.cpp"), ("rotation cache", "src/edyn/sys/update_rotated_meshes.cpp"), ("OBJ loader", "src/edyn/util/shape_io.cpp")],
  "differential monitors over generated polyhedra and OBJ files under AddressSanitizer and UBSan", "Exploration: generated solids whose exact topology is known, and OBJ files generated from them.")
P("C20", "The dynamic bounding volume tree never loses an object",
  "Through any history of insertions, moves, removals and clears, the dynamic tree of the broad phase holds one leaf per live object, whose box contains the object's box; every inner node contains its children, parent and child links and heights agree, and node ids are not reused while live. A box query reports, once each, every object whose box overlaps it and none whose leaf does not; a ray query reports every object the segment passes through and none it misses; moving reports a change exactly when the box left its leaf.",
  ["histories", "inputs"], "all histories of insertions, moves, removals, clears and queries",
  T0 + "no stable test uses the dynamic tree.",
  ["src/edyn/collision/dynamic_tree.cpp", "include/edyn/collision/dynamic_tree.hpp", "include/edyn/collision/tree_node.hpp", "include/edyn/collision/query_tree.hpp", "include/edyn/comp/aabb.hpp"],
  [("tree maintenance", "src/edyn/collision/dynamic_tree.cpp"), ("traversal", "include/edyn/collision/query_tree.hpp")],
  "structural and query monitors against exhaustive search over operation histories, under AddressSanitizer and UBSan", "Exploration of seeded histories; rays within rounding of a box are not judged.")
P("C23", "The entity graph and its connected components are exact",
  "Through any history of inserting and removing nodes and (multiple) edges, changing which nodes connect, and clearing, the entity graph reports exactly the live nodes, edges, neighbours and adjacencies, keeps their entities and indices, and its connected components, traversals and reachability visit exactly the nodes and edges connected through connecting nodes, each once per component, with non-connecting nodes belonging to every component they touch.",
  ["histories"], "all histories of node and edge operations on graphs without self-loops",
  T0 + "no stable test uses the entity graph.",
  ["src/edyn/core/entity_graph.cpp", "include/edyn/core/entity_graph.hpp", "include/edyn/core/free_list.hpp"],
  [("graph", "src/edyn/core/entity_graph.cpp"), ("traversals", "include/edyn/core/entity_graph.hpp")],
  "model-based monitors over operation histories, under AddressSanitizer and UBSan", "Exploration of seeded histories against a reference multigraph.")
P("C22", "Raycasts and region queries report exactly what is there",
  "A raycast through the world reports the first body, other than those to be ignored, that the segment enters, with a fraction within the segment whose point lies on the surface of that body and the surface normal there, and reports nothing exactly when the segment touches nothing, for every kind of shape, compound and mesh, position, orientation and centre of mass, moving or not. Querying a region reports each body of the requested kind, and each island, whose box overlaps it once, none that is far from it and none that was destroyed.",
  ["inputs", "histories"], "all scenes of all shapes and all segments that start outside of them, all query boxes",
  T0 + "no stable test casts a ray against a shape or queries the world.",
  ["src/edyn/collision/raycast.cpp", "src/edyn/collision/broadphase.cpp", "include/edyn/collision/query_aabb.hpp", "src/edyn/shapes/triangle_mesh.cpp", "src/edyn/math/geom.cpp"],
  [("shape raycasts", "src/edyn/collision/raycast.cpp"), ("broad phase queries", "src/edyn/collision/broadphase.cpp")],
  "differential monitors of raycasts and region queries against brute force over the scene, on the whole engine under AddressSanitizer and UBSan", "Exploration of random scenes; oracle: bisection on exact signed distances in double precision; hits within the tolerance of a silhouette are not judged.")
P("C24", "Islands, contacts and graph stay consistent through any history of edits",
  "Through any history of creating, changing and destroying bodies, shapes, constraints and collision exclusions, and stepping, after every update: each dynamic body belongs to exactly one island, each island is exactly one connected component of dynamic bodies together with the other bodies and the contacts and constraints it touches, and an island and its members sleep and wake together, a sleeping body having no velocity; each pair of bodies has at most one contact manifold, findable by its pair, whose list holds exactly the contact points that exist, all finite, with unit normals and pushing impulses; each body is in the matching tree of the broad phase; each body and edge has exactly one graph entry; all positions are finite and orientations unit. No edit leads to an access of something destroyed.",
  ["histories"], "all histories of edits of a world of any shapes, kinds and constraints, interleaved with updates in sequential execution",
  T0 + "no stable test creates a world.",
  ["src/edyn/simulation/island_manager.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/util/contact_manifold_util.cpp", "src/edyn/util/rigidbody.cpp", "src/edyn/util/constraint_util.cpp", "src/edyn/core/entity_graph.cpp", "src/edyn/simulation/stepper_sequential.cpp"],
  [("islands", "src/edyn/simulation/island_manager.cpp"), ("broad phase", "src/edyn/collision/broadphase.cpp"), ("contacts", "src/edyn/collision/narrowphase.cpp"), ("body edits", "src/edyn/util/rigidbody.cpp")],
  "structural monitors on the whole engine after every update of random edit histories, under AddressSanitizer and UBSan", "Exploration of seeded edit histories; connected components are recomputed from the edges by the monitor.")
P("C25", "Bodies move as the laws of motion demand",
  "A body nothing acts upon keeps its velocity and moves in a straight line, gravity adds exactly its own acceleration, static bodies never move, and orientations follow the angular velocity and remain unit. Contacts and joints among dynamic bodies conserve their total linear momentum, and collisions do not create energy. A body that hits the floor leaves it with the restitution of the pair, loses tangential velocity to friction no more than the coefficient permits and until it rolls, and bodies released above a floor come to rest upon it without sinking through and fall asleep.",
  ["inputs", "histories"], "all masses, inertias, velocities, gravities, time steps, materials and shapes, without velocities high enough to pass through the floor in a step",
  T0 + "no stable test steps a simulation.",
  ["src/edyn/dynamics/solver.cpp", "src/edyn/dynamics/restitution_solver.cpp", "src/edyn/constraints/contact_constraint.cpp", "include/edyn/dynamics/row_cache.hpp", "src/edyn/sys/update_inertias.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/constraints/constraint_row.cpp"],
  [("solver", "src/edyn/dynamics/solver.cpp"), ("contacts", "src/edyn/constraints/contact_constraint.cpp"), ("restitution", "src/edyn/dynamics/restitution_solver.cpp")],
  "conservation-law monitors (momentum, energy, Coulomb cone, restitution) on the stepping engine, under AddressSanitizer and UBSan", "Exploration of seeded scenes with tolerances calibrated on the unchanged tree; cylinders take part in conservation but not in the resting scenes' depth bound beyond their size.")
P("C26", "Simulated time keeps up with real time, never runs ahead, and pauses",
  "Each update advances the simulation by whole steps: exactly as many as fit in the time elapsed and not simulated yet, at most the configured maximum, each moving bodies by exactly one step; nothing is lost or simulated twice whatever the lengths of the intervals between updates, and presented positions are where bodies are at the time of the update. While paused nothing moves whatever time passes, that time is not caught up with after resuming, and stepping once while paused advances exactly one step. Step callbacks run once per step.",
  ["histories", "inputs"], "all sequences of update times, pauses, single steps, step sizes and limits in sequential execution",
  T0 + "no stable test updates a simulation.",
  ["src/edyn/simulation/stepper_sequential.cpp", "include/edyn/simulation/stepper_sequential.hpp", "src/edyn/sys/update_presentation.cpp", "src/edyn/edyn.cpp"],
  [("stepper", "src/edyn/simulation/stepper_sequential.cpp"), ("presentation", "src/edyn/sys/update_presentation.cpp")],
  "trace monitors of step callbacks and presented positions over random update schedules, under AddressSanitizer and UBSan", "Exploration of seeded schedules; intervals within a millionth of a step of the boundary are not judged.")
P("C27", "Joints hold, springs and motors apply exactly their force",
  "While nothing but gravity and their own motion acts on them, bodies joined by a point, distance, hinge, constant-velocity, cone or generic joint keep satisfying it and its limits, whichever bodies are dynamic, their order, orientations and centres of mass; a spring between two bodies gives both the impulse of its stiffness and stretch in each step and its damping only slows them; a hinge's torque changes the speed about its axis no faster than it permits, up to the speed of its motor, and never tilts it; two bodies attract each other as Newton's law demands. No combination of parameters produces an infinite or undefined motion or an invalid access.",
  ["inputs", "histories"], "all kinds, parameters, frames, pivots and masses of joints in sequential execution, at moderate velocities",
  T0 + "no stable test creates a joint.",
  ["src/edyn/constraints/point_constraint.cpp", "src/edyn/constraints/distance_constraint.cpp", "src/edyn/constraints/soft_distance_constraint.cpp", "src/edyn/constraints/hinge_constraint.cpp", "src/edyn/constraints/cvjoint_constraint.cpp", "src/edyn/constraints/cone_constraint.cpp", "src/edyn/constraints/generic_constraint.cpp", "src/edyn/constraints/gravity_constraint.cpp", "include/edyn/dynamics/position_solver.hpp", "include/edyn/dynamics/row_cache.hpp"],
  [("joints", "src/edyn/constraints/hinge_constraint.cpp"), ("position correction", "include/edyn/dynamics/position_solver.hpp"), ("row packing", "include/edyn/dynamics/row_cache.hpp")],
  "residual and impulse monitors on jointed bodies in the stepping engine, under AddressSanitizer and UBSan", "Exploration of seeded joints; positional residuals are averaged over a run and compared with bounds calibrated on the unchanged tree (several times the worst of 10,000 runs).")
P("C28", "Clocks measure the time that went by and delays last as long as asked",
  "Readings of the performance counter, performance time and millisecond ticks never go back and always differ by exactly the time that went by between them, expressed in their unit, whatever happens to the wall clock and whenever in a second they are taken; the counter's frequency is constant and time is the counter divided by it. A delay returns no sooner than the requested milliseconds and no more than scheduling later, however often signals interrupt it.",
  ["inputs", "histories", "fault_sequences"], "all moments, intervals, delays, adjustments of the wall clock and interruptions by signals on Linux",
  T0 + "none reads a clock, and errors show only across second boundaries, long intervals or interruptions.",
  ["src/edyn/time/unix/time.cpp", "src/edyn/time/common/time.cpp", "include/edyn/time/time.hpp"],
  [("clock readings", "src/edyn/time/unix/time.cpp"), ("delays", "src/edyn/time/unix/time.cpp")],
  "readings and delays monitored against a virtual system clock with interruptions and clock adjustments, under AddressSanitizer and UBSan", "Exploration of seeded histories; intervals beyond 49 days, where the 32-bit ticks end, are not judged.")
P("C29", "Touching bodies that may collide get a manifold; contacts are announced once",
  "In every step each awake dynamic body has a contact manifold with every other body whose bounding box touches its own, unless their collision groups and masks, an exclusion between them or the user's own filter forbids it, in which case they never acquire one; manifolds of bodies whose boxes came apart are gone after the next step, and a manifold remains the same for as long as the boxes touch. Exclusions are mutual, additions and removals take effect at the next step, and neither the order of bodies nor the number of threads matters. An observer is told of each contact point exactly once when it appears (without an impulse), exactly once that it started, in the same step and with the impulse that step applied to it, and exactly once when it ends, including when its bodies are destroyed.",
  ["histories", "inputs"], "all histories of creation, destruction, movement, filter changes and exclusions of bodies of any kind and shape, in both sequential modes",
  T0 + "no stable test runs the broad phase or observes contact events.",
  ["src/edyn/collision/broadphase.cpp", "src/edyn/collision/should_collide.cpp", "src/edyn/util/exclude_collision.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/collision/contact_manifold_map.cpp", "src/edyn/util/collision_util.cpp", "src/edyn/collision/dynamic_tree.cpp"],
  [("pairs", "src/edyn/collision/broadphase.cpp"), ("filters", "src/edyn/collision/should_collide.cpp"), ("exclusions", "src/edyn/util/exclude_collision.cpp"), ("events", "src/edyn/collision/narrowphase.cpp")],
  "online checker of pairs against a brute-force model and of the contact event trace, on the stepping engine under AddressSanitizer and UBSan", "Exploration of seeded histories; pairs within a hundredth of the contact threshold are not judged.")
P("C30", "The same scene moves the same way again, with any number of threads",
  "Two simulations built by the same calls go through the same states bit by bit when run sequentially, whatever the state of memory; with worker threads, whatever their number, they have the same contacts and the same motion, structures stay consistent, and no two threads ever access the same data without synchronisation.",
  ["histories", "schedules"], "all scenes of bodies, shapes and joints and all schedules of one to seven workers",
  T0 + "no stable test steps a simulation, and data races need particular schedules.",
  ["src/edyn/dynamics/solver.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/simulation/stepper_sequential.cpp", "include/edyn/parallel/job_dispatcher.hpp", "src/edyn/parallel/job_dispatcher.cpp", "src/edyn/parallel/job_queue.cpp", "include/edyn/parallel/atomic_counter_sync.hpp"],
  [("solver tasks", "src/edyn/dynamics/solver.cpp"), ("island tasks", "src/edyn/dynamics/island_solver.cpp"), ("parallel collision detection", "src/edyn/collision/narrowphase.cpp")],
  "differential monitoring of twin simulations (sequential against sequential and multi-threaded) under AddressSanitizer and ThreadSanitizer", "Exploration of seeded scenes; with threads, motion is compared for as long as the twins agree to rounding, as summation order is not promised.")
P("C31", "In asynchronous mode the main registry and the simulation thread agree",
  "With asynchronous execution, every change made in the main registry (bodies and joints created and destroyed at any time, even while results of a step are on their way, and positions, velocities, shapes, friction, kind and centre of mass assigned) reaches the simulation, and every result reaches the main registry: once both are idle they hold the same bodies, joints, contacts, islands, transforms, velocities and sleeping states, with what was asked for last in effect. Raycasts and box queries are each answered exactly once and correctly; a paused simulation does not step, a single step is exactly one, the simulation never runs ahead of time, and no data is accessed by two threads without synchronisation.",
  ["histories", "schedules"], "all histories of edits and queries of the main registry interleaved in any way with the steps of the simulation thread",
  T0 + "no stable test runs the engine asynchronously, and the failures need edits that overlap results on their way.",
  ["src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/entity_map.hpp", "include/edyn/parallel/message_dispatcher.hpp", "src/edyn/parallel/message_dispatcher.cpp", "src/edyn/collision/raycast_service.cpp", "src/edyn/collision/query_aabb.cpp"],
  [("main side", "src/edyn/simulation/stepper_async.cpp"), ("simulation thread", "src/edyn/simulation/simulation_worker.cpp"), ("replication", "include/edyn/replication/registry_operation.hpp")],
  "differential monitoring of the main registry against snapshots taken inside the simulation thread and against a model of what was asked for, under AddressSanitizer and ThreadSanitizer", "Exploration of seeded histories of edits under the schedules the machine produces, with delays; some edits are made while results of a step are known to be on their way.")
P("C03", "Messages between threads arrive exactly once, in order and unchanged",
  "Every message sent to an existing queue is delivered exactly once, to that queue only, with its contents and sender unchanged, and messages of one sender to one queue arrive in the order they were sent, whatever their types and however many threads send and update at the same time. Each push is announced exactly once; messages a handler sends to its own queue arrive with a later update; messages to a queue that does not exist, or of a type nobody listens for, disturb nothing.",
  ["schedules", "histories"], "all numbers of senders, queues and messages of any types and all interleavings of sends and updates",
  T0 + "no stable test sends a message, and lost or repeated messages need particular interleavings.",
  ["include/edyn/parallel/message_queue.hpp", "include/edyn/parallel/message_dispatcher.hpp", "src/edyn/parallel/message_dispatcher.cpp"],
  [("queue", "include/edyn/parallel/message_queue.hpp"), ("dispatcher", "include/edyn/parallel/message_dispatcher.hpp")],
  "offline checking of recorded deliveries (exactly once, order per sender, contents) with injected delays, under AddressSanitizer and ThreadSanitizer", "Exploration of seeded message plans under the schedules the machine produces.")
P("C21", "A registry replicated through operations equals its source",
  "After the operations recorded for a source registry (entities observed and unobserved, created and destroyed, components of any shared type assigned, changed and removed) are executed on another registry, the latter holds exactly the same entities and components with the same values, entities within components being those of the target registry (or none if unknown there). This holds for any split into batches, any delay before they are executed, with recording suspended and resumed, and after the batches are moved around or remapped; nothing leaks and nothing is created twice. The entity map stays a bijection.",
  ["histories"], "all histories of edits of the source registry and all splits into batches, for all shared component types",
  T0 + "no stable test replicates a registry.",
  ["include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/entity_map.hpp", "include/edyn/replication/map_child_entity.hpp", "src/edyn/replication/map_child_entity.cpp", "include/edyn/comp/shared_comp.hpp", "src/edyn/context/registry_operation_context.cpp"],
  [("operations", "include/edyn/replication/registry_operation.hpp"), ("recording", "include/edyn/replication/registry_operation_observer.hpp"), ("entities within components", "src/edyn/replication/map_child_entity.cpp")],
  "model-based monitoring: every batch executed is compared, field by field, with a model of the source registry at the time it was recorded, under AddressSanitizer with leak detection", "Exploration of seeded histories.")

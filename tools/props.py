LEV = "Held on the executions that were generated and observed, nothing beyond them; the oracle is an independent implementation in the harness."

prop("C01", "Loading never crashes, hangs or exhausts memory, whatever bytes a file holds",
 """Every loader and every incremental reader, for every supported file format (xy, xyz, OBJ, OFF, PLY ascii and
 binary, STL ascii and binary, LAS, PTS, PTX, PSL, gcode), ends with a value or an error for any byte sequence
 whatsoever: it never panics, never loops forever, and never reserves memory out of proportion to the size of the file,
 no matter which counts the header claims. Incremental readers always end after finitely many items.""",
 ["inputs"], "All byte sequences: arbitrary bytes, mutations and splices of valid files, valid headers with hostile counts, all readers.",
 "The tests load a handful of well-formed files; a parser's robustness is about the inputs nobody wrote a file for.",
 ["src/io"], [("header count limits", "src/io/utils.rs"), ("byte readers returning io errors", "src/io/byte_reader.rs"), ("line iterators", "src/io/utils.rs")],
 "hostile-input runs of the real loaders under a panic, allocation-peak and progress monitor",
 "Bytes are generated, mutated and spliced from reference encodings; panic=unwind with overflow checks and debug assertions on; a counting allocator bounds peak memory; a CPU watchdog bounds time. " + LEV,
 observe=["return value of load_*", "items of the *Iterator types"])

prop("C02", "What is saved is what is loaded again",
 """Saving points or a mesh with any of the savers and loading the result with the loader of the same format gives back
 the same number of points and faces, in the same order, with exactly the coordinates that were saved (rounded to single
 precision where the format stores single precision) and the same vertex indices per face. Saving succeeds for every mesh
 or cloud, including empty ones, degenerate faces and extreme finite coordinates.""",
 ["inputs"], "All point clouds and meshes with finite coordinates, all savers, delimiters and matching loaders.",
 "The tests round-trip one small cloud and two models; exactness of float formatting and index handling must hold for every value.",
 ["src/io"], [("savers", "src/io/ply/save.rs, src/io/{stl,xy,xyz}.rs"), ("loaders", "src/io")],
 "round-trip monitor: saved scene and re-loaded scene compared bit for bit",
 LEV, observe=["bytes written by save_*", "result of load_*"])

prop("C03", "Text formats deliver exactly what the file says",
 """For every well-formed text file (xy, xyz, OBJ, OFF, ascii PLY, ascii STL, PTS, PTX, gcode), loading delivers exactly
 the points, faces and normals the file describes, in file order, with each decimal number read to the nearest
 double. Insignificant differences between files (comments and empty lines where the format allows them, additional blanks, line
 ending style, missing final line break, unknown properties or records) do not change the result.
 The incremental reader delivers the same as the loader.""",
 ["inputs"], "All well-formed text files of the supported formats, in all their spelling variants.",
 "The tests compare a few files written by one program; the property is about all spellings of all contents.",
 ["src/io"], [("word and line splitting", "src/io/utils.rs"), ("per format parsers", "src/io/*")],
 "differential monitor against a reference encoder that knows the content of each generated file",
 LEV, observe=["result of load_*", "items of *Iterator"])

prop("C04", "Binary formats deliver exactly what the file says",
 """For every well-formed binary file (little and big endian PLY with any property order and extra properties, binary STL, LAS versions 1.0 to 1.4,
 PSL), loading delivers exactly the points, faces and normals encoded in it, in file order, with the
 declared types, byte order, scales and offsets applied. The incremental reader delivers the same as the loader.""",
 ["inputs"], "All well-formed binary files: property orders, types, byte orders, counts and record lengths.",
 "The tests read a few files with a single property layout.",
 ["src/io"], [("byte readers", "src/io/byte_reader.rs"), ("PLY header and vertex order", "src/io/ply"), ("LAS header", "src/io/las")],
 "differential monitor against a reference encoder that knows the content of each generated file",
 LEV, observe=["result of load_*", "items of *Iterator"])

prop("C05", "Truncated or damaged files are reported, never silently accepted",
 """A file that ends before everything it declares, or in which a required number, count, index or keyword is damaged, is reported as an error by
 both the loader and the incremental reader; the only exception is a face index that is out of range, which the incremental reader may deliver as it is.
 Everything delivered before the error is a prefix of what the intact file holds, and if the error names a line, it is the line
 that is damaged. The same holds for structure the result cannot represent: .obj faces with more than three vertices, .ply faces
 ahead of the vertices or with further lists in front of or (binary) behind the vertex ids. After an error or its end, an incremental reader delivers nothing more.""",
 ["inputs", "crash_points"], "All truncation points and all single damaged tokens in all well-formed files.",
 "No test loads a damaged file; silent data loss shows only on inputs that are cut or damaged at a specific place.",
 ["src/io"], [("element counting", "src/io/{ply,las}, src/io/{off,pts,ptx,psl}.rs"), ("line numbers in errors", "src/io/types.rs"), ("is_done of the iterators", "src/io/*")],
 "fault-injecting workload with a prefix, error-line and fused-iterator monitor",
 LEV, level="exploration", observe=["error of load_*", "items delivered before the error"])

prop("C06", "A failing or slow sink never yields a silently incomplete file",
 """When a saver reports success, the sink received exactly the bytes it would have received from a sink without any faults, no matter how many bytes
 each write accepted, and when the sink reports a failure at any point the saver reports an error. The bytes delivered before a failure are a prefix of the
 complete output.""",
 ["fault_sequences", "inputs"], "All savers, all contents, all sequences of short writes, interruptions and failures at any byte.",
 "The tests write to files and memory only; neither writes partially nor fails.",
 ["src/io"], [("write_all in the savers", "src/io/ply/save.rs, src/io/{stl,xy,xyz}.rs")],
 "write-fault injection with a byte-exact monitor on the sink",
 LEV, level="fault_enumeration", observe=["bytes accepted by the sink", "result of save_*"])

prop("C07", "Loading does not depend on how bytes arrive, and read failures are reported",
 """The result of loading depends only on the bytes of the file, not on the sizes in which the source delivers them or on interrupted reads. If the source fails
 while data is still needed, the loader and the incremental reader report an error instead of taking the failure for the end of the file.""",
 ["fault_sequences", "inputs"], "All readers, all contents, all chunkings, interruptions and failures at any byte.",
 "The tests read from files that never fail and always deliver full buffers.",
 ["src/io"], [("line reading", "src/io/utils.rs"), ("read_exact in binary readers", "src/io/byte_reader.rs")],
 "read-fault injection compared with the fault-free load of the same bytes",
 LEV, level="fault_enumeration", observe=["result of load_*", "items of *Iterator"])

prop("C08", "k-d tree searches agree with searching all points",
 """Every search of a k-d tree built from any points gives exactly what looking at every point gives: the nearest point, the k nearest points ordered by distance, all points
 within a sphere, and all points within a box. The tree holds exactly the points it was built from, and an empty result or an error occurs only where nothing matches.""",
 ["inputs"], "All point sets (duplicates, collinear, coplanar, lattice, clustered, extreme), all query positions, radii, boxes and counts.",
 "The tests query one small cloud; pruning errors only show for specific layouts of points relative to the splitting planes.",
 ["src/kd_tree.rs"], [("pruning on the splitting plane", "src/kd_tree.rs")],
 "online comparison with a linear-scan oracle",
 LEV, observe=["nearest, knearest, in_sphere, in_box, to_pointcloud"])

prop("C09", "The octree keeps every point and each level is a proper coarsening",
 """An octree built from any points holds exactly these points, duplicates once, and reports their number. Collecting down to a level yields exactly one position for every
 occupied cell of that level (cells holding a single point yield that point, others a position within the extent of their points), so that deeper levels never yield fewer positions, and collecting without a limit
 yields all points. Building succeeds unless the points are flat along an axis or closer to each other than floating point numbers can divide.""",
 ["inputs"], "All point sets, including points on cell and box boundaries and nearly coincident ones; all levels.",
 "The tests collect from one regular cloud.",
 ["src/oc_tree.rs"], [("cell selection", "src/oc_tree.rs")],
 "online comparison with the set of distinct points and an independent cell model",
 LEV, observe=["build, size, to_pointcloud, collect"])

prop("C10", "Box trees and the planar grid report what matches and nothing else",
 """A bounding box tree (2D or 3D) over any objects delivers for every query exactly those objects that testing each object on its own would: all whose
 bounding box overlaps the query box, is hit by the query ray, or is crossed by an axis-aligned plane at the queried value; none is missing and none that clearly does not match is delivered, for every depth limit and bucket size. The planar grid
 delivers, each once, all objects whose box contains the queried x/y position and none further away than a grid cell.""",
 ["inputs"], "All sets of boxes, bucket sizes, depths and grid resolutions, all query positions, rays and boxes.",
 "The tests query trees of a few objects.",
 ["src/aa_bb_tree_2d.rs", "src/aa_bb_tree_3d.rs", "src/cluster.rs", "src/functions.rs"], [("splitting and pruning", "src/aa_bb_tree_*.rs"), ("ray/box test", "src/functions.rs"), ("grid cells", "src/cluster.rs")],
 "online comparison with a linear-scan oracle",
 LEV + " Objects within rounding distance of the query boundary are not judged.", observe=["any", "bb_colliding", "bb_crossing_*_value", "for_each_intersection_candidate", "for_each_collision_candidate", "for_each_candidate"])

prop("C11", "Half edges answer every topology query of a mesh correctly",
 """For every triangle mesh (with boundaries, several components, isolated vertices, any number of vertices and faces), the half edge
 structure and the searchable mesh agree with the face list: tail, head, next, previous and face of every edge, edges of every face,
 edges leaving, ending at and touching every vertex, faces of every vertex, and the faces sharing an edge or a vertex with a face;
 on consistently oriented manifold meshes the twin of an edge is the unique edge running the other way, and there is none exactly if no such edge exists.
 Vertices added to a searchable mesh later are known to it and belong to no edge. Ids that do not exist are answered with none or an error, and results are appended to what the caller passes.""",
 ["inputs"], "All meshes whose faces have three different vertices, all index container types, all ids.",
 "The tests look at a few edges of one tiny mesh; the twin and neighbourhood relations must hold for every mesh shape and id order.",
 ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"], [("HalfEdge::new", "src/half_edge.rs"), ("IsSearchableMesh default methods", "src/is_searchable_mesh.rs")],
 "brute-force oracle over the face list compared with every query of the real structure",
 LEV, observe=["HalfEdge methods", "SearchableMesh methods"])

prop("C12", "A mesh holds exactly the vertices and faces that were added to it",
 """After any sequence of adding vertices and faces, connecting vertices, changing vertices, reserving, moving, cloning and converting, a mesh
 has exactly the vertices and faces that sequence describes, with the ids that were returned, in every storage type (single precision storage rounds coordinates, nothing else).
 An edit with an id that does not exist, or a face that uses a vertex twice, is refused with an error and changes nothing; any
 id that does not exist, however large, is answered with none.""",
 ["histories"], "All edit histories over all vertex stores and index stores.",
 "Tests exercise one short history; the id and index bookkeeping must hold after any history and across the precision changes of the index store.",
 ["src/mesh_3d.rs", "src/is_data_container.rs", "src/point_cloud_3d_f32.rs"], [("try_add_connection", "src/mesh_3d.rs"), ("index containers", "src/dynamic_precision_index_vec.rs")],
 "model-based state machine: random edit histories against a list of vertices and a list of faces, compared after every step",
 LEV, observe=["Mesh3D methods"])

prop("C13", "Index containers store every index exactly",
 """After any sequence of push, set, reserve, ensure_supported, clone and conversion, every index container holds exactly the values written to it,
 in order, whatever their size (up to 2^32-1 for the 32 bit container). The dynamic precision container uses the narrowest of
 8, 16, 32 and 64 bit that supports the largest value stored or announced so far, and its raw views show the same content.""",
 ["histories"], "All operation histories with values over the whole usize range, in particular around the precision limits.",
 "Values are silently truncated if a single widening is missed; tests use a handful of values.",
 ["src/dynamic_precision_index_vec.rs", "src/u32_index_vec.rs", "src/impls/vec.rs", "src/is_index_container.rs"], [("ensure_supported", "src/dynamic_precision_index_vec.rs"), ("upgrade_to_*", "src/dynamic_precision_index_vec.rs")],
 "model-based state machine against Vec<usize>, compared completely after every operation",
 LEV, observe=["IsIndexContainer methods", "get_u8 .. get_usize_upgraded_mut"])

prop("C19", "Healing and vertex clustering keep exactly the proper faces, once each",
 """Healing a mesh gives a mesh with exactly the faces of the input whose three positions differ, each once (the same positions in the same cyclic
 order count as the same face), with the same orientation, and without two vertices at one position. Clustering with a positive cell size replaces each
 vertex by one original vertex of its cell (the same for the whole cell, cells counted from the minimum corner of the bounding box) and heals the result; it fails
 if an axis has less than two cells.""",
 ["inputs"], "All meshes with finite coordinates, with coinciding vertices, repeated, rotated, flipped and degenerate faces; all positive cell sizes.",
 "Tests heal one file; losing, duplicating or flipping a face depends on the combination of positions and index order.",
 ["src/heal_mesh.rs", "src/cluster_vertices.rs", "src/utils.rs"], [("pack_dupes_indexed", "src/utils.rs"), ("cluster map", "src/cluster_vertices.rs")],
 "set oracle over position triples (and over cells) compared with the real result",
 LEV, observe=["heal_mesh", "cluster_vertices"])

prop("C20", "Subdivision, orientation unification and normals are geometrically right",
 """Linear subdivision keeps all vertices, adds exactly one vertex in the middle of every edge, and replaces every face by its three corner faces and the middle face with the orientation of
 the face; a face that uses a vertex twice is an error. Unifying faces keeps vertices and the vertices of each face, only flips faces, and leaves all
 edge-connected faces of an orientable mesh with at most two faces per edge consistently oriented. The face normal is the normalized right-handed cross
 product (an error for degenerate faces and missing ids) and each vertex normal is the normalized sum of the normals of its faces.""",
 ["inputs"], "All meshes with finite coordinates: open, closed, several components, non-orientable, sharp edges, any mixture of flipped faces.",
 "Tests check face counts of one mesh; orientation and edge sharing depend on the topology and the order of the faces.",
 ["src/subdivide.rs", "src/unify_faces.rs", "src/is_mesh_3d.rs", "src/utils.rs"], [("edge map", "src/subdivide.rs"), ("orientation propagation", "src/unify_faces.rs"), ("face_normal", "src/is_mesh_3d.rs"), ("normals_of_mesh", "src/utils.rs")],
 "geometric oracle for each result (edge map, two-colouring of the dual graph, recomputed normals)",
 LEV, observe=["subdivide::linear", "unify_faces", "face_normal", "normals_of_mesh"])

prop("C17", "The planar convex hull is exactly the hull",
 """The convex hull of any planar point set holds exactly the corners of the smallest convex polygon that contains all points, each once, in counter-clockwise order;
 points inside of it or on an edge between two corners are not part of it. One position (or many equal ones) gives one point, points on a line give the two ends, and
 the order and the container of the input do not matter.""",
 ["inputs"], "All finite planar point sets in all orders: duplicates, collinear, lattice, circular, vertical ties, up to thousands of points.",
 "The tests compute one small hull; degenerate configurations and orders decide whether points are lost or kept wrongly.",
 ["src/convex_hull_2d.rs", "src/utils.rs"], [("monotone chain", "src/convex_hull_2d.rs"), ("sorting with tie break", "src/utils.rs")],
 "comparison with an exact integer gift-wrapping oracle, containment monitor for inexact coordinates",
 LEV, observe=["convex_hull_2d"])

prop("C18", "Path simplification keeps every deviation above epsilon",
 """Simplifying a path yields a subsequence of its points (unchanged, in order) that starts with the first and ends with the last point. Between any two
 consecutive kept points no dropped point is further than epsilon from the line through them, and a point is kept only where it is
 the farthest point of a section that deviates more than epsilon; the line of a section whose ends coincide is that position.""",
 ["inputs"], "All finite paths (closed, vertical, self-crossing, repeated points) and all finite epsilons; a negative one acts like 0.",
 "The tests simplify one path; whether a part is dropped wrongly depends on its shape and its position in the recursion.",
 ["src/douglas_peucker_2d.rs"], [("recursion and distance", "src/douglas_peucker_2d.rs")],
 "each result is checked against the set of all possible outcomes of the definition (independently computed distances, any tie)",
 LEV, observe=["douglas_peucker_2d"])

prop("C24", "Interpolated curves and generated shapes lie where their definition puts them",
 """Interpolating a path with n points gives exactly n points: at the parameters i/n of the Bezier curve through the base points, or at
 equal distances along the path from its first to its last base point with linear or cosine blending; less than two base points are an error. Rectangles, arcs,
 ellipses and involutes have the points their center, sizes, angles and point number define, the first at the start angle and the last at the end angle.""",
 ["inputs"], "All finite base paths (repeated points, up to a thousand base points), all numbers of points including 0 and 1, all sizes and angles.",
 "The tests compare one or two curves; division by zero, overflow and off-by-one only show for particular counts and layouts.",
 ["src/interpolate_2d.rs", "src/factory_2d.rs"], [("interpolation", "src/interpolate_2d.rs"), ("shape generators", "src/factory_2d.rs")],
 "comparison with an independent evaluation (de Casteljau, arc length walk, parametric forms) of every point",
 LEV, observe=["interpolate_*, interpolation_linear", "rectangle, arc, ellipse, involut_circle"])

prop("C14", "Bounding boxes are exact intervals and all queries follow from them",
 """The bounding box of positions reaches exactly from their smallest to their largest coordinate in every dimension, whether computed from references, values, clouds,
 polygons, segments or solids (boxes, balls, filters); less than two positions, no extent in a dimension or swapped corners are an error. Center, sizes, corners,
 containment of positions and boxes (strict), overlap (of the interiors, touching is none), crossing values and distances to positions and boxes are
 those of the intervals. Moving, scaling about the center, and merging change exactly the intervals. The default box has size one about the origin.""",
 ["inputs"], "All pairs of boxes (nested, touching, sharing sides, apart), all positions and all finite point sets, in 2D and 3D.",
 "The tests use a few boxes; every query has boundary cases in every dimension.",
 ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/box_2d.rs", "src/box_3d.rs", "src/circle.rs", "src/sphere.rs", "src/has_bounding_box_2d.rs", "src/has_bounding_box_3d.rs"], [("BoundingBox2D / BoundingBox3D", "src/bounding_box_*.rs")],
 "online comparison with interval arithmetic, generic over 2D and 3D",
 LEV, observe=["BoundingBox methods", "bounding_box(_maybe) of solids, clouds, polygons, segments"])

prop("C15", "Positive, non-negative and normalized values keep their promise",
 """A positive number can only be made from a value above zero and a non-negative one only from zero or more, and
 after any sequence of operations they hold the result of the same operations on floating point numbers and still keep their promise, unless
 the exact result is out of the range of floating point numbers. A direction made from any finite vector that is not zero, no matter how long or short, has length one
 and the direction of the vector; a zero, infinite or NaN vector is an error. Negating or multiplying a direction acts per component.""",
 ["histories", "inputs"], "All floating point values including subnormal, huge, infinite and NaN ones, all operation sequences.",
 "Every other module unwraps these constructors; tests use ordinary values only.",
 ["src/positive.rs", "src/non_negative.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/is_normalized_2d.rs", "src/is_normalized_3d.rs"], [("constructors and operators", "src/positive.rs, src/non_negative.rs"), ("normalization", "src/norm_*.rs")],
 "operation histories mirrored on plain floats, invariants asserted after every operation",
 LEV, observe=["Positive, NonNegative operators", "Norm2D::new, Norm3D::new"])

prop("C16", "Filters accept what they define; views keep exactly what was selected",
 """Shape filters (box, circle, sphere) accept exactly the positions in or on their shape, direction field filters exactly the directions within
 the angle of the field's direction, outlier filters exactly the positions with enough neighbours, and all combinations (and, or, xor, not, all, any, hollow, always, never) follow logic, however nested. Filtering a container
 narrows a view to exactly its accepted elements, with any and all combining the selections (any of no filters selects nothing, all of none changes nothing). Applying a view keeps exactly the
 selected elements in order, and an index out of bounds is refused without any change; uniting views selects what either selects.""",
 ["inputs"], "All nested combinations of filters, all elements including those exactly on borders, all containers and all views.",
 "The tests use a few filters on a few points; combinators and views have to be right for every nesting.",
 ["src/filter_*.rs", "src/view.rs", "src/impls", "src/is_view_buildable.rs"], [("combinators", "src/filter_*.rs"), ("container filters", "src/filter_*random_accessible.rs"), ("views", "src/view.rs, src/impls/*.rs")],
 "random expression trees evaluated in three-valued logic by an independent evaluator and compared with the real filters",
 LEV, observe=["is_allowed", "filter", "apply_view, from_view, union"])

prop("C21", "Equality, hashing and deduplication go by value",
 """Points, directions, lines, segments, rays, planes, boxes, balls, filters, bounding boxes, clouds, polygons, meshes, faces, ids, colors and number types are equal exactly if all
 their components are equal as numbers (positive and negative zero are), and equal values always have equal hashes. So each
 value put into a hash set or map is found again, none is in it twice, and merging the duplicate vertices of a mesh leaves one vertex per position.""",
 ["inputs"], "All values whose components are not NaN, all pairs of them, all hash functions.",
 "A hash that disagrees with equality for a special value only shows for that value; tests never hash both zeros.",
 ["src/utils.rs", "src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/positive.rs", "src/non_negative.rs", "src/heal_mesh.rs"], [("hash_f64", "src/utils.rs"), ("derived and manual PartialEq / Hash", "src/*.rs")],
 "all pairs of generated values (with both zeros) compared by components, under two hash functions and in hash sets",
 LEV, observe=["==, Hash of all value types", "heal_mesh"])

prop("C22", "Transformations move every position as their definition says",
 """Transformation matrices act as their name says for every argument: translation, scaling, counter-clockwise rotation (about x after y after z, or about any axis), look at, perspective (near and far plane end up at minus near and at far, height scaled by the cotangent of half the angle, width by that over far);
 a product applies its right factor first, in every form of the operands. A transformation pipe applies scale, rotation, translation, camera translation, look at and perspective in this order, with
 exactly the parts that were added last and not removed. Transforming, moving, scaling about the center, centering, resizing, extruding or rotating any object changes every position of it exactly this way and nothing else.""",
 ["inputs", "histories"], "All finite positions, angles, axes and factors, all products, all histories of a pipe, all kinds of objects.",
 "The tests transform one or two points; order of factors, signs and missed members need arbitrary arguments and every type.",
 ["src/matrix3.rs", "src/matrix4.rs", "src/matrix3_pipe.rs", "src/matrix4_pipe.rs", "src/is_matrix3_transformable.rs", "src/is_matrix4_transformable.rs", "src/is_movable_2d.rs", "src/is_movable_3d.rs", "src/is_scalable.rs", "src/functions.rs", "src/is_transformable_to_2d.rs", "src/is_transformable_to_3d.rs"],
 [("matrix constructors and products", "src/matrix*.rs"), ("pipes", "src/matrix*_pipe.rs"), ("transform / move / scale of each type", "src/is_*able*.rs, src/*.rs")],
 "every result compared with an independent geometric evaluation, pipe histories mirrored by a model",
 LEV, observe=["Matrix3, Matrix4, their pipes", "transform, move_by, scale, center, set_size, extrude, rotate"])

prop("C25", "Containers keep exactly what was put in; every access to a position agrees",
 """After any history of insertions, appends and changes, clouds, vectors, queues and polygons hold exactly the elements a plain sequence would, refuse wrong positions without any change,
 and sorting or merging them keeps all elements. The coordinates of a position are the same through every way of reading (by name, dimension, text) and change exactly where they are written; a dimension that does not exist,
 a wrong number of coordinates or malformed text is refused. Length, center of gravity, distances and products are those of the elements.""",
 ["histories", "inputs"], "All operation histories, all finite coordinates, all indices and dimensions including impossible ones, all spellings of numbers.",
 "The tests push a few points; off-by-one at the ends and wrong members show only for particular histories, types and dimensions.",
 ["src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/polygon_2d.rs", "src/polygon_3d.rs", "src/impls", "src/is_nd.rs", "src/is_2d.rs", "src/is_3d.rs", "src/is_buildable_nd.rs", "src/distances_2d.rs", "src/distances_3d.rs", "src/distances_nd.rs", "src/functions.rs", "src/line_segment_2d.rs", "src/line_segment_3d.rs"],
 [("containers", "src/point_cloud_*.rs, src/polygon_*.rs, src/impls"), ("position access", "src/is_*d.rs, src/point_*.rs, src/box_*.rs, src/circle.rs, src/sphere.rs")],
 "operation histories mirrored on a plain sequence, compared after every operation; every accessor compared with the coordinates put in",
 LEV, observe=["IsRandomInsertible, IsPushable, IsRandomAccessible, IsMergeable, sort", "IsND, Is2D, Is3D, IsEditable, IsBuildable, parse, to_str", "length, center_of_gravity, dist_*"])

prop("C26", "Compact storage keeps every point within its stated precision",
 """Compressing a cloud to 8, 16, 32 or 64 bit per coordinate and decompressing it gives the same number of points in the same order, each coordinate off by at most one unit
 (the extent of the cloud in that dimension divided by the largest value), never outside of the bounding box, with the lowest coordinates exact; it fails only without a bounding box. A
 single precision cloud holds each coordinate rounded to the nearest single precision number and nothing else, after any history of additions and changes; moving it adds the vector to every point, in single precision.""",
 ["inputs", "histories"], "All clouds with finite coordinates (huge, tiny and shifted extents), all integer widths, all histories.",
 "The tests do not compress at all; overflow at the largest value and rounding depend on the extent and width.",
 ["src/compressed_point_cloud_3d.rs", "src/point_cloud_3d_f32.rs"], [("compress / decompress", "src/compressed_point_cloud_3d.rs"), ("PointCloud3Df32", "src/point_cloud_3d_f32.rs")],
 "round trip of every point with the error bound, exact comparison with single precision rounding",
 LEV, observe=["CompressedPointCloud3D::compress, decompress", "PointCloud3Df32 methods"])

prop("C23", "Bodies collide exactly when no side direction separates them",
 """Bodies (aligned boxes, boxes turned about the vertical axis, triangles) have exactly the corners, side directions and bounding box their definition gives. Two bodies collide exactly when their
 projections overlap along every side direction of both (box directions, face normal, edge normals within the face), so bodies that share a position always collide, in either order. A body made of several colliders,
 and a container of bodies, collides exactly if any of its parts does; a triangle without extent in a dimension is refused.""",
 ["inputs"], "All pairs of bodies in all relative positions, all containers and compositions of bodies.",
 "The repository tests two boxes; missing directions and wrong corners only show for particular orientations.",
 ["src/sat_collider.rs", "src/is_sat_object.rs", "src/collider_3d.rs", "src/has_colliders_3d.rs", "src/is_collider_container_3d.rs", "src/tri_face_3d.rs", "src/box_unaligned_3d.rs", "src/bounding_box_3d.rs", "src/impls"],
 [("separating axis tests", "src/sat_collider.rs, src/is_sat_object.rs"), ("bodies", "src/tri_face_3d.rs, src/box_unaligned_3d.rs, src/bounding_box_3d.rs"), ("containers", "src/is_collider_container_3d.rs, src/impls")],
 "every collision compared with an independent evaluation of the projections, and with constructed shared positions",
 LEV, observe=["IsSATObject::collides_with, Collider3D, HasColliders3D", "IsColliderContainer3D"])

prop("C27", "Safe calls never touch foreign memory or invalid text",
 """No sequence of calls of the public interface, on any arguments and any input including damaged and hostile files, reads or writes outside of its own memory,
 uses memory that was freed or never initialized, or treats bytes as text which are not.""",
 ["inputs", "histories"], "All call sequences without unsafe code, all bytes as files, all indices.",
 "The library avoids checks where it parses numbers out of raw bytes; a missing one only shows for particular bytes, and then mostly as silently wrong data.",
 ["src/io/utils.rs", "src/io", "src/dynamic_precision_index_vec.rs", "src/half_edge.rs", "src"], [("unchecked conversion of bytes to text", "src/io/utils.rs"), ("indexing throughout", "src")],
 "AddressSanitizer, a standard library with checked unsafe preconditions, and the interpreter Miri, watching the workloads of all other properties",
 LEV, observe=["every public call the other checks make", "AddressSanitizer reports, failed preconditions, Miri reports"])

prop("C28", "Rays, lines, planes and angles give what geometry says",
 """A ray hits a triangle exactly if it passes inside and in front of its anchor, at a position on both; all hits of a mesh are collected in face order. A line meets a box exactly if it passes through and the box isn't
 entirely behind the anchor, at the point of entry, and closest searches give an element nearest to the anchor. Face normals are right-handed unit vectors, planes give the coordinates along
 their directions, and angles are those between the directions, refused where there is none.""",
 ["inputs"], "All finite rays, lines, triangles, boxes, planes and positions, clear of borders by more than rounding errors.",
 "The repository has no test of rays or planes; signs, sides and degenerate directions need arbitrary positions.",
 ["src/functions.rs", "src/plane_3d.rs", "src/is_plane_3d.rs", "src/is_2d.rs", "src/is_3d.rs", "src/line_3d.rs", "src/ray_3d.rs"],
 [("intersections", "src/functions.rs"), ("closest searches", "src/functions.rs"), ("planes and angles", "src/plane_3d.rs, src/is_2d.rs, src/is_3d.rs")],
 "every result compared with an independent geometric evaluation with error bounds, sums and order of collected hits",
 LEV, observe=["intersection(s) of rays and lines", "closest_* and for_each_* searches", "Plane3D, rad_to, calc_normal"])

prop("C29", "Comparing values is a total order that agrees with equality",
 """Points, directions, lines, rays, planes, boxes, balls, filters, bounding boxes, clouds, polygons, meshes, faces, ids and colors are totally ordered: two values compare as equal exactly if they are
 equal, comparing them the other way round gives the reverse, what is below a lower value is below, and all comparison operators, minimum and maximum agree with each other. So an ordered set or map
 keeps every different value and finds it again, and sorted values can be searched and deduplicated. Segments, angles and number types compare in the same way; ids, angles and numbers like their numbers.""",
 ["inputs"], "All values whose components are not NaN, all pairs and triples of them.",
 "An order that takes different values for equal silently loses them from ordered sets and maps; the tests never compare anything.",
 ["src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/box_2d.rs", "src/box_3d.rs", "src/circle.rs", "src/sphere.rs"],
 [("Ord", "src/point_*.rs, src/norm_*.rs, src/box_*.rs, src/circle.rs, src/sphere.rs"), ("derived orders", "src/*.rs")],
 "all pairs and triples of generated values (related by swapping, negating and changing components) compared in every way, kept in ordered sets, sorted and searched",
 LEV, observe=["Ord, PartialOrd of all value types"])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run in /verif)."""
import json, os

VALID = ("every valid input: a simple outer ring in either orientation, any number of disjoint simple holes strictly "
         "inside it, any number of Steiner points not on a ring edge, all points distinct, coordinates representable "
         "in the float type and, unless zero, between 1e-60 and 1e60 in magnitude")
T = "Tests sample a few fixed polygons (bird, nazca_heron, one square) and one random Steiner cloud in a fixed square; "

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, state=state or []))

GEN = "random structured generation of valid polygons plus coverage-guided mutation, "
TRI = "CDT::triangulate, triangle_list_indices"
NOTE = ("Explores a fixed number of generated inputs per run, reproducible from VERIF_SEED; no exhaustiveness. "
        "Trusts the harness's exact integer predicates and domain test, which ./check.sh selftest compares with i128 arithmetic. ")

prop("C01", "Every valid polygon is triangulated: no panic, abort, overflow or hang",
 "For every valid input, building and triangulating it returns a non-empty triangulation; it never panics, aborts, overflows its stack, trips an assertion or overflow check, or fails to terminate. This holds for both float types, with and without debug assertions.",
 ["inputs", "configurations"], VALID + "; f64 and f32; with and without debug assertions",
 T + "degenerate geometry (collinear rings, equal heights, nearly flat corners, deep concavities) is never generated, f32 is never run",
 ["src/sweeper.rs", "src/cdt.rs", "src/points.rs", "src/advancing_front/vec_backed.rs"],
 [("the sweep and its edge events always find the next node or triangle", "src/sweeper.rs: point_event, edge_event, fill_*_edge_event_once, edge_event_process, flip_edge_event, flip_scan_edge_event"),
  ("the interior walk starts from a triangle of the polygon", "src/sweeper.rs: find_interior_triangle, clean_mesh")],
 [TRI], GEN + "crash oracle with panic capture and a step allowance for termination, four builds",
 NOTE + "Non-termination is an exceeded allowance of executed code edges, at least 15 times what any case of the unchanged tree takes, so a slowdown below that is not reported.")

prop("C02", "Every triangle is proper: three input points in counter-clockwise order",
 "For every valid input each triangle of the result refers to three different input points by indices in range and has strictly positive area in exact arithmetic. The coordinates given by the triangle iterator are those of its three points.",
 ["inputs", "configurations"], VALID + "; f64 and f32",
 T + "they compare a count or an area sum within a tolerance, which neither slivers nor clockwise triangles disturb",
 ["src/sweeper.rs", "src/cdt.rs", "src/shape.rs", "src/utils.rs"],
 [("new triangles are made with their corners in counter-clockwise order", "src/sweeper.rs: point_event, fill_one; src/shape.rs: rotate_cw"),
  ("orientation is decided by a robust predicate", "src/utils.rs: orient_2d")],
 [TRI, "Triangles iterator"], GEN + "exact orientation of every triangle", NOTE)

prop("C03", "The triangles tile the region exactly: no gap, no overlap, nothing outside",
 "For every valid input the triangles cover exactly the outer polygon minus its holes: their areas add up to its area exactly, every inner side is shared by exactly two triangles and every other side belongs to exactly one and lies on a ring.",
 ["inputs", "configurations"], VALID + "; f64 and f32",
 T + "only the number of triangles of fixed polygons is checked, and no test has a hole whose tiling is checked",
 ["src/sweeper.rs", "src/cdt.rs"],
 [("the front covers everything below it without gaps", "src/sweeper.rs: fill_advancing_front, fill_basin, fill_one"),
  ("the interior is what a walk reaches without crossing constrained edges", "src/sweeper.rs: finalize_polygon, clean_mesh"),
  ("diagonal turns keep neighbour relations", "src/sweeper.rs: rotate_triangle_pair, legalize")],
 [TRI], GEN + "exact areas in wide integers, counting of directed sides, Euler's relation", NOTE)

prop("C04", "Every ring edge is an edge of the triangulation and nothing crosses it",
 "For every valid input each edge of the outer ring and of every hole is a side of exactly one triangle, which lies on the side of the region, and no side of any triangle crosses a ring edge.",
 ["inputs", "configurations"], VALID + "; f64 and f32",
 T + "no test looks at constrained edges at all",
 ["src/sweeper.rs", "src/cdt.rs", "src/points.rs"],
 [("edge events force each ring edge into the mesh", "src/sweeper.rs: edge_event, fill_edge_event, edge_event_process, flip_edge_event, flip_scan_edge_event"),
  ("constrained sides are never turned away", "src/sweeper.rs: legalize, is_legalize; src/shape.rs: set_constrained_for_edge")],
 [TRI], GEN + "exact search of every ring edge among the triangles' sides and exact crossing test", NOTE)

prop("C05", "The corners are the ring vertices and the inside Steiner points, all of them",
 "For every valid input each ring vertex and each Steiner point strictly inside the region is a corner of some triangle, no Steiner point outside the region or in a hole is, and no triangle contains an input point that is not its corner.",
 ["inputs", "configurations"], VALID + "; f64 and f32",
 T + "dropped or doubled points are not looked for",
 ["src/sweeper.rs", "src/points.rs", "src/cdt.rs"],
 [("every point is swept once in order of height", "src/points.rs: Points::new, iter_point_by_y; src/sweeper.rs: sweep_points"),
  ("triangles beyond constrained edges are not part of the result", "src/sweeper.rs: clean_mesh")],
 [TRI], GEN + "exact comparison of the corner set with the located input points", NOTE)

prop("C06", "The result is a constrained Delaunay triangulation",
 "For every valid input no side shared by two triangles could be improved: the opposite corner lies strictly inside no triangle's circumcircle, in exact arithmetic. For inputs of up to 24 points the definition is also checked globally: no vertex visible from a triangle's interior lies strictly inside its circumcircle.",
 ["inputs", "configurations"], VALID + "; f64 and f32",
 T + "one test counts non-Delaunay pairs with the library's own in-circle function on one family of inputs without holes",
 ["src/sweeper.rs", "src/utils.rs"],
 [("every new or changed pair is legalized until none is left", "src/sweeper.rs: legalize, is_legalize"),
  ("sides touched while forcing an edge are legalized afterwards", "src/sweeper.rs: force_edge, flip_edge_event"),
  ("robust in-circle test", "src/utils.rs: in_circle")],
 [TRI], GEN + "exact in-circle test of every shared side, global visibility definition on small inputs", NOTE)

prop("C07", "Steiner points outside the region or in a hole change nothing",
 "For every valid input with Steiner points outside the outer ring or inside a hole, the result is a correct triangulation of the region, and where it is unique it equals the triangulation without those points.",
 ["inputs"], VALID + ", with Steiner points anywhere off the ring edges",
 "No test has a Steiner point outside of the region.",
 ["src/sweeper.rs", "src/cdt.rs"],
 [("the interior is found from the ring, whatever lies outside of it", "src/sweeper.rs: find_interior_triangle, clean_mesh, finalize_polygon")],
 [TRI], GEN + "metamorphic relation: same triangulation without the outside points", NOTE)

prop("C08", "Triangulating commutes with exact similarity maps",
 "For every valid input, mirroring, quarter turns, scaling by powers of two and translations that are exact in floating point give a correct triangulation, and where the triangulation is unique it is the image of the original one.",
 ["inputs"], VALID + ", with every map of the list that is exact on it",
 "The tests run each input in one position only; left/right mirrored code paths are exercised by chance.",
 ["src/sweeper.rs", "src/utils.rs"],
 [("left and right variants of every fill and edge event agree", "src/sweeper.rs: fill_left_*, fill_right_*"),
  ("no decision uses absolute tolerances", "src/utils.rs; src/sweeper.rs: point_event, should_fill")],
 [TRI], GEN + "metamorphic relation between the results for an input and its image", NOTE)

prop("C09", "The result does not depend on how the same polygon is written down",
 "For every valid input, starting rings at another vertex, reversing their direction, permuting holes and Steiner points, and issuing the builder calls in another order or batching give a correct triangulation, and where it is unique the same one; a debug and a release build of one float type give the very same list of indices.",
 ["inputs", "histories"], VALID + ", with every rewriting of the list",
 "The tests build each polygon in one way only.",
 ["src/cdt.rs", "src/points.rs", "src/sweeper.rs"],
 [("edges are stored at their upper end whatever the ring's direction", "src/shape.rs: Edge::new; src/cdt.rs: parse_polyline"),
  ("points are sorted before the sweep", "src/points.rs: Points::new")],
 [TRI], GEN + "metamorphic relation between rewritings of the same input", NOTE)

prop("C10", "Triangulating is a function of its input: no hidden state",
 "For every valid input the list of indices is bit for bit the same when repeated, from clones of the builder or of the built value, with an observer that does nothing, after other inputs in the same process, similar ones too, after calls that ended in a panic, while other results are alive, inside an observer of another call, and on several threads at once.",
 ["inputs", "histories", "schedules"], VALID + ", with random histories of other and of similar inputs before and in between, panicking and nested calls, four threads",
 "No test triangulates the same input twice or on more than one thread.",
 ["src/cdt.rs", "src/sweeper.rs", "src/advancing_front/vec_backed.rs"],
 [("all state lives in the sweeper made for one call", "src/cdt.rs: triangulate_with_observer; src/sweeper.rs: Sweeper::new"),
  ("the front's access cache only speeds up", "src/advancing_front/vec_backed.rs: get_node_with_cache, search_by_key_with_cache")],
 [TRI], "random histories of builder, clone, triangulate and observe calls over generated inputs, compared with the first answer",
 NOTE + "Thread schedules are those the operating system happens to produce, they are not controlled.")

prop("C11", "Points and data come back in the order of the builder calls",
 "For every sequence of builder calls the result lists exactly the given points, bit for bit, and their data in the order the calls gave them, each datum at the index of its point. Every source of points is asked once and every datum is dropped exactly once, also when the builder or the result is dropped early or an observer panics.",
 ["inputs", "histories"], VALID + ", through every builder method, user-defined sources and the AsPoint interface, data with observable drops",
 "One test passes custom data through one call of one method.",
 ["src/cdt.rs", "src/lib.rs", "src/points.rs"],
 [("points and data are appended in step", "src/cdt.rs: Builder::new, add_steiner_point, add_steiner_points, add_hole, add_holes"),
  ("the artificial points are not given back", "src/cdt.rs: Triangles::points; src/points.rs: points_without_fake")],
 ["Triangles::points, data, triangle_list_indices"], "model-based: random call sequences against a list of (point, token)", NOTE)

prop("C12", "The triangle iterator and the index list agree",
 "For every valid input the iterator yields exactly the triangles of the index list, in that order and with those corners, then ends and stays ended. Its size hint and count, and adaptors that skip or take agree with what it yields, and reading the index list at any time does not disturb it.",
 ["inputs", "histories"], VALID + ", with random interleavings of reading methods",
 "The tests use the iterator once from the start and the index list once on a square.",
 ["src/cdt.rs"],
 [("a cursor over the result ids", "src/cdt.rs: Iterator for Triangles, triangle_list_indices")],
 ["Triangles iterator, triangle_list_indices"], "model-based: random interleavings of reads against a list with a cursor", NOTE)

prop("C13", "An observer sees a complete, well nested account of the sweep",
 "For every valid input the observer is told of every point but the lowest once in order of height then x, of every ring edge once right after its upper end's point, of balanced legalizations that contain all rotations, each made of steps with at most one rotation, of the end of the sweep and then of the result, once each and in that order. The result it is shown last is the one the caller gets.",
 ["inputs", "histories"], VALID,
 "One test counts rotations; order and completeness of the events are never looked at.",
 ["src/sweeper.rs", "src/cdt.rs"],
 [("callbacks around each step of the sweep", "src/sweeper.rs: sweep_points, point_event, edge_event, legalize; src/cdt.rs: triangulate_with_observer")],
 ["Observer callbacks"], GEN + "a protocol automaton over the callbacks with the expected order computed from the input", NOTE)

prop("C14", "At every event the mesh and its front are a consistent triangulation",
 "For every valid input, before and after every point event and after every edge event, the mesh an observer sees has mutual neighbours over shared sides, no clockwise triangle, the points swept so far and no others, constrained sides exactly where ring edges were reported, and as open sides the base and the front. The front runs in order of x from one artificial point to the other, and refers to the triangles below it, at the end of every legalization too.",
 ["inputs", "histories"], VALID,
 "No test looks at the mesh while it is made.",
 ["src/sweeper.rs", "src/triangles.rs", "src/advancing_front/vec_backed.rs", "src/shape.rs"],
 [("neighbour relations are set on both sides", "src/triangles.rs: mark_neighbor, mark_neighbor_for_two_mut; src/sweeper.rs: rotate_triangle_pair"),
  ("the front is updated whenever a triangle at it changes", "src/sweeper.rs: map_triangle_to_nodes, fill_one; src/advancing_front/vec_backed.rs: insert, update_and_delete_by_index, update_triangle")],
 ["Observer callbacks: Sweeper::triangles, points, advancing_front"], GEN + "invariants over the mesh and the front at every event, exact orientation, Euler's relation", NOTE)

prop("C15", "The legality diagnostics tell the truth and no illegal pair is left",
 "For every valid input and at every event, the list of illegal triangle pairs and the verification verdict an observer can ask for agree with exact arithmetic on the mesh, and between events no illegal pair is left. Only pairs that are illegal and not separated by a constrained side are rotated by a legalization.",
 ["inputs", "histories"], VALID,
 "One random test asks for the verdict at the end of a sweep over points without rings inside.",
 ["src/sweeper.rs", "src/utils.rs"],
 [("diagnostics over all neighbours", "src/sweeper.rs: verify_triangles, illegal_triangles"),
  ("legalization rotates only illegal pairs and repeats until none is left", "src/sweeper.rs: legalize, is_legalize")],
 ["Sweeper::illegal_triangles, verify_triangles in callbacks"], GEN + "differential against exact in-circle tests over the mesh at every event", NOTE)

prop("C16", "Loading a file equals building the same polygon by hand",
 "For every valid input written in the plain file format, whatever the layout of lines, blanks, line ends and number notation and whatever the order of its sections, loading gives a builder whose points and triangulation are those of the builder calls made by hand. Loading leaves the file unchanged and a loader can be used again.",
 ["inputs", "configurations"], VALID + ", in random layouts; f64 and f32",
 "The tests load three files and do not compare with anything built by hand; holes and Steiner sections are never loaded.",
 ["src/loader.rs", "src/cdt.rs"],
 [("line-wise parser with sections", "src/loader.rs: load, parse_point")],
 ["PlainFileLoader::load"], "round trip: generated inputs written in random layouts, loaded, compared with the builder calls", NOTE)

prop("C17", "Malformed files are reported as an error, never a panic",
 "For every byte sequence in a file, loading it returns an error when it is not UTF-8, has a line that is neither a section header nor blank and does not begin with two numbers, or repeats a point right after itself in a ring, and never panics or accepts it; a missing file or a folder gives an error too. A file that is still well formed is loaded as what it says, and the loader works again after an error.",
 ["inputs", "fault_sequences"], "files made by damaging well formed ones: bytes, lines, numbers, headers, encodings, repeated points, truncation at every kind of place; missing files and folders",
 "No test loads a malformed file.",
 ["src/loader.rs"],
 [("errors are mapped to LoaderError", "src/loader.rs: load, parse_point, check_ring, invalid")],
 ["PlainFileLoader::load"], "mutation fuzzing of files against a model grammar of the format",
 NOTE + "Files on which the format says nothing (extra values on a line, blanks around headers, infinite values) must not make the loader panic and are not judged otherwise.")

prop("C18", "f32 and f64, debug and release builds give the same triangulation",
 "For every valid input whose coordinates are representable in both float types, all builds (f32 and f64, with and without debug assertions and overflow checks) give a correct triangulation, and where it is unique the same one; a debug and a release build of one float type give the very same list of indices.",
 ["inputs", "configurations"], VALID + " and in f32",
 "The tests run in one build; the f32 feature is never compiled by them.",
 ["src/utils.rs", "src/lib.rs", "src/points.rs", "src/sweeper.rs"],
 [("decisions are taken by robust predicates in either type", "src/utils.rs: orient_2d, in_circle, in_scan_area, Angle")],
 [TRI], "differential between four builds of the same generated inputs", NOTE)

prop("C19", "Large inputs work like small ones",
 "For large valid inputs, up to about 90 000 points, beyond 16 bit indices, and of shapes that drive every part of the sweep to its worst depth, triangulating in a thread with the default 2 MiB stack returns a correct constrained Delaunay triangulation.",
 ["inputs"], "sixteen parametrized families in eight positions each, 1 000 to 90 000 points (180 000 in the thorough check)",
 "The largest test input has 1 036 points.",
 ["src/sweeper.rs", "src/points.rs", "src/triangles.rs", "src/advancing_front/vec_backed.rs"],
 [("legalization, basin filling and edge forcing keep their depth bounded", "src/sweeper.rs: legalize, fill_basin, clean_mesh, flip_edge_event"),
  ("ids wide enough", "src/points.rs: PointId; src/triangles.rs: TriangleId")],
 [TRI], "generated members of large families, full exact oracle, in a thread with a 2 MiB stack", NOTE + "Only shapes of the sixteen families.")

prop("C20", "No input, valid or not, corrupts memory",
 "Whatever polygon, holes and Steiner points are given, including duplicates, self-intersections, points on edges, empty rings, infinities and NaN, triangulating and reading the result never reads or writes memory it does not own. It may refuse by a panic.",
 ["inputs", "configurations"], "arbitrary rings and points, valid or not; AddressSanitizer build and a build with the standard library's checks of unsafe preconditions",
 "No test passes an invalid polygon, and none runs under a sanitizer; the crate uses unchecked accesses in several places.",
 ["src/triangles.rs", "src/points.rs", "src/advancing_front/vec_backed.rs", "src/sweeper.rs"],
 [("ids given to unchecked accesses are valid by construction", "src/points.rs: PointId::get, get_point_uncheck; src/triangles.rs: get_mut_two, get_mut_six, get_unchecked; src/advancing_front/vec_backed.rs: update_and_delete_by_index")],
 ["the process: sanitizer reports, signals, aborts"], "coverage-guided fuzzing with arbitrary inputs under AddressSanitizer and unsafe-precondition checks",
 NOTE + "Panics, exhausted steps, stack or memory on invalid input are not judged: the documentation promises nothing there. Aliasing violations without a wrong access are not seen.")

prop("C21", "The guarantees hold at extreme coordinates",
 "For valid inputs with very large or very small coordinates, far from the origin, on lattices of neighbouring floating point numbers, extremely flat or of mixed magnitudes, the result is a correct constrained Delaunay triangulation of the region.",
 ["inputs", "configurations"], VALID + ", scaled by powers of two up to 2^110 and down to 2^-110 (2^50 and 2^-50 in f32), moved far from the origin, on ulp-wide lattices, squeezed or sheared",
 "The tests use coordinates between 0 and about 1000 in ordinary resolution.",
 ["src/utils.rs", "src/points.rs", "src/sweeper.rs"],
 [("robust predicates instead of tolerances", "src/utils.rs: orient_2d, in_circle"),
  ("artificial points strictly outside whatever the scale", "src/points.rs: Points::new")],
 [TRI], GEN + "extreme coordinate transformations, full exact oracle", NOTE)

prop("C22", "Adding a point inside only changes the triangles it invalidates",
 "For every valid input whose triangulation is unique, adding one Steiner point strictly inside the region keeps exactly the triangles whose circumcircle does not see it and makes all other triangles meet in the new point.",
 ["inputs"], VALID + ", with a further point near or in a random triangle",
 "No test relates the results of two inputs.",
 ["src/sweeper.rs", "src/utils.rs"],
 [("the constrained Delaunay triangulation is unique and local", "src/sweeper.rs: legalize, edge_event")],
 [TRI], GEN + "metamorphic relation between the results with and without one more point", NOTE)

prop("C23", "Cutting a polygon along an edge of its triangulation composes",
 "For every valid input whose triangulation is unique, cutting the region along a triangulation edge between two vertices of the outer ring and triangulating both parts gives together exactly the triangles of the whole.",
 ["inputs"], VALID + ", cut at a random inner edge that joins two ring vertices",
 "No test relates the results of two inputs.",
 ["src/sweeper.rs", "src/cdt.rs"],
 [("constrained edges separate what lies on their sides", "src/sweeper.rs: clean_mesh, legalize")],
 [TRI], GEN + "metamorphic relation between a whole and its parts", NOTE)

prop("C24", "Lookups by an observer with any id or point never corrupt memory",
 "From every callback and on any input, an observer may look up triangles by arbitrary indices, points by ids of another triangulation, and front nodes by any position or by the handle of a node of long ago or of another triangulation: each lookup gives the element if it exists and otherwise none or a panic, and never touches memory it does not own.",
 ["inputs", "histories", "configurations"], "arbitrary rings and points, valid or not; arbitrary, stale and foreign ids in every callback",
 "No test looks anything up from an observer with an id that does not exist.",
 ["src/triangles.rs", "src/points.rs", "src/advancing_front/vec_backed.rs", "src/advancing_front/mod.rs"],
 [("safe lookups are bounds checked", "src/triangles.rs: get, get_unchecked, TriangleId::get; src/points.rs: get_point; src/advancing_front/vec_backed.rs: nth, locate_node, locate_next_node, locate_prev_node")],
 ["lookups in Observer callbacks; the process: sanitizer reports, signals"], "fuzzing of lookups from observer callbacks under AddressSanitizer and unsafe-precondition checks, with a bounds model", NOTE)

prop("C25", "A triangle's corners, sides and neighbours can be navigated coherently",
 "For every triangle an observer can see, the corner after and before each corner, the neighbours across and beside it, side indices, marks of sides, the common side of two neighbours and the corner across it are those of the triangle's own list of corners and neighbours, and questions about strangers are answered with none. Changing a copy changes what was asked and nothing else.",
 ["inputs", "histories"], VALID + ", random triangles after every event",
 "Unit tests ask a few of these questions about one hand-made triangle.",
 ["src/shape.rs", "src/triangles.rs"],
 [("case analysis over corner positions", "src/shape.rs: point_cw, point_ccw, edge_index, common_edge_index, neighbor_*, edge_attr_*, rotate_cw")],
 ["InnerTriangle methods in Observer callbacks"], GEN + "model: cyclic list of corners, sides numbered by the corner across", NOTE)

prop("C26", "The point store an observer sees is the input, sorted, with its edges",
 "For every valid input the point store lists the input points under their indices in the order of the builder calls, each exactly once by height then x, each ring edge once at its upper end, and besides them two artificial points strictly below and to the left and right of everything.",
 ["inputs", "histories"], VALID,
 "No test reads the point store.",
 ["src/points.rs", "src/cdt.rs", "src/shape.rs"],
 [("sorting and artificial points", "src/points.rs: Points::new, iter_point_by_y, get_id_by_y, iter_without_fake"),
  ("edges at their upper end", "src/cdt.rs: parse_polyline; src/shape.rs: Edge::new")],
 ["Sweeper::points in Observer callbacks"], GEN + "model: the input list and its exact order", NOTE)

prop("C27", "The front answers lookups like the ordered list it is",
 "For every valid input and after every event, looking up front nodes by rank, by an exact point, by an arbitrary position or by the handle of a node seen earlier gives what a search of the front read from left to right gives: the node at or before a position, the nodes next to it, none beyond either end. A node's handle gives that node, or, after it has left the front, none, and its neighbours are then those of the place where it was.",
 ["inputs", "histories"], VALID + ", random positions and handles kept from earlier events",
 "Unit tests look up a few nodes of one hand-made front that never changes.",
 ["src/advancing_front/vec_backed.rs", "src/advancing_front/mod.rs"],
 [("binary search over nodes sorted by point", "src/advancing_front/vec_backed.rs: locate_node, get_node, get_node_with_id, locate_next_node, locate_prev_node, nth"),
  ("handles are resolved by the node's point", "src/advancing_front/vec_backed.rs: resolve_index_for_id; src/advancing_front/mod.rs: NodeRef")],
 ["Sweeper::advancing_front in Observer callbacks"], GEN + "model: the front read by its iterator, searched linearly, and a history of handles", NOTE)

prop("C28", "An observer can follow every change of the mesh",
 "For every valid input, replaying what an observer is told gives the mesh: during a legalization corners change only by the rotation announced, of two triangles that share an unconstrained side, into the two triangles with the other diagonal; a point event otherwise only adds triangles, the first with the new point as a corner; and only forcing an edge changes triangles besides. No triangle ever disappears or changes its number.",
 ["inputs", "histories"], VALID + ", of up to 300 points",
 "No test compares the mesh at two events.",
 ["src/sweeper.rs", "src/triangles.rs", "src/shape.rs", "src/cdt.rs"],
 [("rotations are announced before they happen", "src/sweeper.rs: legalize, rotate_triangle_pair"),
  ("triangles are only appended", "src/triangles.rs: insert; src/sweeper.rs: point_event, fill_one")],
 ["Sweeper::triangles in Observer callbacks"], GEN + "model: the mesh at the last callback with the announced change replayed", NOTE)

prop("C29", "On ordinary inputs the work grows with the number of points",
 "For uniformly random Steiner clouds, grids of many small holes, both together, and rings of many steps or teeth, the number of control flow steps per point that building, triangulating and reading the result execute is at 100 times the size at most 2.5 times what it is at a few hundred points.",
 ["inputs"], "random members of five parametrized families in eight positions each, 400 to 800 points against 40 000 to 80 000",
 "Benchmarks measure a few files by hand; no test looks at growth, and a thousand points do not show it.",
 ["src/sweeper.rs", "src/advancing_front/vec_backed.rs", "src/points.rs", "src/cdt.rs"],
 [("front nodes are found by binary search, a cache and index hints", "src/advancing_front/vec_backed.rs: search_by_key, search_by_key_with_cache, resolve_index_for_id"),
  ("legalization and cleaning visit only what changed", "src/sweeper.rs: legalize, clean_mesh, map_triangle_to_nodes")],
 ["Builder, CDT::triangulate, triangle_list_indices, Triangles iterator"], "metamorphic relation between the counted steps of a small and a 100 times larger member of the same generated family",
 NOTE + "Counts control flow edges of the crate and what is inlined into it, not time: block moves and other library loops are not counted. Families on which the algorithm is quadratic by nature (hull, bowl, comb, ...) are left out.")

prop("C30", "The heap taken is in proportion to the points and given back",
 "For every valid input, dropping the result gives back all heap memory that building, triangulating and reading it took, so that repeating it leaves no more in use. On the inputs of C29 never more than 64 KiB and 1 KiB per point are in use at a time, and on any input never more than 64 KiB, 4 KiB per point and 16 bytes per pair of points.",
 ["inputs"], VALID + ", up to 80 000 points",
 "No test looks at memory.",
 ["src/sweeper.rs", "src/triangles.rs", "src/points.rs", "src/cdt.rs", "src/advancing_front/vec_backed.rs"],
 [("work lists are emptied and reused", "src/sweeper.rs: legalize, edge_event, clean_mesh"),
  ("stores are sized by the points and owned by the call or the result", "src/triangles.rs: with_capacity; src/points.rs: Points::new; src/cdt.rs: triangulate_with_observer")],
 ["Builder, CDT::triangulate, triangle_list_indices, Triangles iterator; the global allocator"], GEN + "bounds on the heap in use, counted by the global allocator of the harness",
 NOTE + "The per pair term covers families in which one edge flips through most of the mesh. What the first call sets up for good is not counted as left behind.")

prop("C31", "No input makes the crate execute undefined behaviour",
 "Whatever polygon, holes and Steiner points are given, building, triangulating with or without an observer that asks for diagnostics, and reading the result executes no undefined behaviour as Miri defines it: no access out of bounds, dangling or unaligned, no read of uninitialised memory, no invalid value, no access against the aliasing rules (Tree Borrows and Stacked Borrows). It may refuse by a panic.",
 ["inputs"], "arbitrary rings and points, valid or not, small enough to be interpreted (12 000 control flow edges, about ten points)",
 "Compiled tests do not see undefined behaviour that happens to do no harm with the present compiler.",
 ["src/triangles.rs", "src/sweeper.rs", "src/points.rs", "src/advancing_front/vec_backed.rs", "src/cdt.rs"],
 [("references made from raw pointers are disjoint", "src/triangles.rs: get_mut_two, mark_neighbor; src/sweeper.rs: legalize, rotate_triangle_pair"),
  ("unchecked accesses stay in bounds", "src/points.rs: get_point_uncheck; src/triangles.rs: get_mut_unchecked, get_unchecked; src/cdt.rs: Iterator::next")],
 ["the interpreter's diagnostics"], "coverage-guided generated inputs, run natively first, then interpreted by Miri, whose diagnostics are the oracle",
 NOTE + "Only small inputs, f64; Miri's model of the language is taken as its definition.")

for p in P:
    if p["id"] in ("C07", "C08", "C09", "C13", "C14", "C15", "C22", "C23", "C25", "C26", "C27", "C28", "C30"):
        p["over"].append("configurations")
        p["text"] += "; f64 and f32"

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique="property-based testing: " + p["tech"],
                 level="exploration", level_note=p["note"].strip()) for p in P],
    not_applicable=[],
    notes="No hooks in /repo. Every check builds the harness and /repo's working tree itself (target/ is ignored by git). known-findings.txt lists the repaired defects. ./check.sh replay FILE runs a replay file again.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

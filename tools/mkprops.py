"""Writes properties.jsonl (kept as a program so that the prose stays readable)."""
import json, os
DOM = "valid inputs: a simple polyline, disjoint simple holes inside it, Steiner points anywhere off the constraint edges, no duplicate points"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))
S, C, A, SH, U, PT, L = "src/sweeper.rs", "src/cdt.rs", "src/advancing_front/", "src/shape.rs", "src/utils.rs", "src/points.rs", "src/loader.rs"

prop("C01", "The triangles tile the polygon minus its holes exactly",
     "For every valid input (simple polyline, disjoint simple holes inside it, Steiner points off the edges, no duplicates), triangulating returns, and the returned triangles cover the polygon minus its holes exactly: no gap, no overlap, nothing outside. Every triangle is non-degenerate and listed counter-clockwise.",
     ["inputs"], "all " + DOM + ", at any scale, in any order and orientation",
     "The tests triangulate about ten fixed shapes and random points in a square; most of them only count triangles or check that nothing panics. A gap or overlap needs a particular constellation of slopes, and no test computes coverage.",
     [S, C, SH, U], [("sweep, fill and edge events", S), ("interior flood fill", S + " finalize_polygon"), ("exact orientation predicate", U)],
     [("result", "triangles inside the constraints", S)], ["CDT::triangulate", "Triangles::triangle_list_indices"])
prop("C02", "Every polyline and hole edge is an edge of the result and never crossed",
     "For every valid input, triangulating returns, and each segment of the polyline and of each hole appears as an edge of exactly one returned triangle, on the side of the region. No returned triangle has an edge that crosses a segment of the polyline or of a hole.",
     ["inputs"], "all " + DOM,
     "Whether an edge is forced in correctly depends on how it cuts the triangles present at that moment; the tests' shapes cover few of these cases and none looks for the constraint edges in the output.",
     [S, SH, C], [("edge events, forced flips", S + " edge_event, flip_edge_event, flip_scan_edge_event"), ("constraint marks", SH)],
     [("constrained edges", "marks on triangle edges", SH)], ["CDT::triangulate"])
prop("C03", "The result is the constrained Delaunay triangulation",
     "For every valid input, triangulating returns, and every edge shared by two returned triangles that is not a polyline or hole segment is locally Delaunay in exact arithmetic: the opposite corner of one triangle is never strictly inside the circumcircle of the other.",
     ["inputs"], "all " + DOM + "; in-circle evaluated exactly",
     "Only a handful of fixed examples count illegal triangles, with a tolerance, and legalization errors show up only for particular flip cascades.",
     [S, U], [("legalization by flipping", S + " legalize"), ("in-circle predicate", U + " in_circle"), ("Delaunay marks", SH)],
     [("delaunay edges", "edges already known to be legal", SH)], ["CDT::triangulate"])
prop("C04", "Exactly the points of the region are the corners of the result",
     "For every valid input, triangulating returns, and the corners of the returned triangles are exactly the polyline's and holes' points and the Steiner points strictly inside the region. No other point (invented, or outside of the polyline, or in a hole) is a corner, and no point lies in or on a triangle of which it is not a corner.",
     ["inputs"], "all " + DOM + ", including many exterior and in-hole Steiner points",
     "The tests never compare the set of used points with the set of given ones, and mostly have no exterior points.",
     [S, PT, C], [("artificial points kept apart", PT), ("interior flood fill", S + " finalize_polygon")],
     [("points", "input points plus two artificial ones", PT)], ["CDT::triangulate", "Triangles::points"])
prop("C06", "Triangulating a valid input always returns",
     "Building and triangulating any valid input returns normally: no panic, no abort, no overflow of the stack, no failed internal assertion or arithmetic overflow in builds that check them, no endless loop, no run-away memory. This includes inputs of tens of thousands of points and very small or very large coordinates.",
     ["inputs", "configurations"], "all " + DOM + "; release and debug-assertion builds; f64 and f32",
     "Panics and endless loops sit in rare branches (forced flips, fills next to an edge, unchecked look-ups); the tests run a few hundred inputs of one style.",
     [S, A, SH, "src/triangles.rs"], [("recursion of edge events and legalization", S), ("advancing front look-ups", A)],
     [], ["CDT::triangulate"])
prop("C07", "The mesh shown to an observer is consistent at every step",
     "Whenever an observer is called back, the triangles it can see link to each other consistently: neighbours are mutual, across the same edge, and missing exactly at the rim; both sides agree on whether an edge is a constraint; an edge marked as Delaunay is. At the same moments the triangles tile exactly the area between the base line and the advancing front.",
     ["inputs", "histories"], "all " + DOM + ", at every callback except between a rotation being announced and carried out",
     "The tests look at the final result; a wrong link or mark in the middle only matters for particular later events.",
     [S, SH, "src/triangles.rs"], [("rotation of a triangle pair", S + " rotate_triangle_pair"), ("neighbour marking", "src/triangles.rs"), ("edge attributes", SH)],
     [("triangles", "corners, neighbours, constraint and Delaunay marks", SH)], ["Observer callbacks"])
prop("C08", "The advancing front is sorted, complete and answers look-ups correctly",
     "At every observer callback the advancing front runs from the left to the right artificial point in order of x (then y), and every point reached so far lies on or below it. Except between the begin and the end of a legalization, each of its edges carries the triangle directly below. Looking up any position gives the last front point at or left of it (by x, then y) together with its neighbours, or nothing for a position left of the whole front; looking up a point finds it exactly if it is on the front.",
     ["inputs", "histories"], "all " + DOM + ", at every callback; look-ups at input points and at any other position, also outside of the front",
     "Unit tests exercise the front container with three points; the sweep uses it with vertical edges, equal coordinates and interleaved deletions.",
     [A, S], [("vector backed front", A + "vec_backed.rs"), ("node to triangle mapping", S + " map_triangle_to_nodes")],
     [("advancing_front", "sorted nodes with their triangles", A)], ["Observer callbacks: Sweeper::advancing_front"])
prop("C09", "Points and edges are processed once each, in sweep order",
     "An observer sees every input point except the lowest entered and left exactly once, in order of y, then x. Right after its upper end point, and before the next point, it sees every polyline and hole segment exactly once, lower end point first; from then on that segment stays an edge of the mesh.",
     ["inputs", "histories"], "all " + DOM + ", including equal y coordinates and horizontal segments",
     "No test has an observer that records the order; ties in y and horizontal segments are where it can go wrong.",
     [PT, C, SH, S], [("sorting", PT + " Points::new"), ("edges at their upper end point", C + " parse_polyline, " + SH + " Edge::new"), ("sweep loop", S + " sweep_points")],
     [("y_sorted", "sweep order", PT)], ["Observer: enter/exit_point_event, edge_event"])
prop("C10", "Observers see the documented protocol and the triangles that are returned",
     "Callbacks come in the documented nesting: point events are entered before left, legalizations begin before they step, rotate and end, the end of the sweep precedes the final result, and both come exactly once. A legalization ends with the triangle it began with, and it steps and rotates only at triangles it has reached from there. The triangles shown at the final callback are exactly the returned ones, these are the triangles of the mesh that the constraints separate from the outside, and they alone are marked as interior then; none is marked before.",
     ["inputs", "histories"], "all " + DOM,
     "The tests' observers only count rotations for two fixed inputs.",
     [C, S], [("callback sites", S), ("finalization", S + " finalize_polygon")],
     [("result", "ids of the final triangles", S)], ["Observer", "CDT::triangulate_with_observer"])
prop("C17", "Every step of the sweep is a legal transition",
     "Between two observer callbacks the mesh changes only by one of: a triangle added on top of the front edge below the new point; a valley of the front covered by one triangle; an edge that is not a constraint and not Delaunay flipped; the triangles cut by the segment being inserted re-arranged within their outline so that the segment is an edge. No triangle ever becomes inverted and no other triangle changes.",
     ["inputs", "histories"], "all " + DOM + ", every pair of consecutive callbacks",
     "It is a statement about each transition, which final results cannot show; the tests check final counts.",
     [S], [("new_front_triangle, fill, legalize, flip events", S)], [("triangles", "the mesh", "src/triangles.rs")], ["Observer callbacks"])
prop("C18", "After each point and each segment the whole mesh is constrained Delaunay",
     "Whenever the sweep leaves a point or finishes a segment, every edge of the whole mesh built so far, including the part outside of the polygon and at the artificial points, is locally Delaunay or an inserted segment.",
     ["inputs", "histories"], "all " + DOM + ", after each point event and edge event",
     "Later flips hide most intermediate errors from the final result, and no test looks at intermediate meshes.",
     [S, U], [("legalization", S + " legalize"), ("in-circle", U)], [], ["Observer: exit_point_event, edge_event"])
prop("C19", "The mesh check offered to observers is exact",
     "At every observer callback, illegal_triangles() lists exactly the ordered pairs of neighbouring triangles whose common edge is not a constraint and where the opposite corner of the second is strictly inside the circumcircle of the first, each pair once, and verify_triangles() returns true exactly if there is none.",
     ["inputs", "histories"], "all " + DOM + ", at every callback, also in the middle of legalizations, where there are such pairs",
     "It is the library's own oracle, used by its debug assertions and its tests only as 'no illegal triangle'; nothing notices if it overlooks some.",
     [S], [("is_legalize, illegal_triangles, verify_triangles", S)], [("triangles", "the mesh", "src/triangles.rs")], ["Sweeper::verify_triangles", "Sweeper::illegal_triangles"])
prop("C20", "Handles of front nodes stay meaningful while the front changes",
     "A handle (node id) taken from a node of the advancing front at any callback can be used at any later one: it finds the node exactly if its point is on the front then, and the next and previous node it gives are the first front node right and the last one left of its point, even if the node is gone meanwhile. Nodes reached by number, and by next and prev from each other, are the nodes the iteration shows, with their positions.",
     ["inputs", "histories"], "all " + DOM + "; any node's handle taken at any callback and used at any later one",
     "A handle carries a position hint that is stale after any insertion or deletion; the tests use one front of a few nodes.",
     [A], [("resolve_index_for_id, locate_next_node, locate_prev_node", A + "vec_backed.rs"), ("NodeId, NodeRef", A + "mod.rs")],
     [("nodes", "sorted nodes", A)], ["AdvancingFront through Observer: nth, iter, get_node_with_id, locate_next_node, locate_prev_node"])
prop("C21", "The point store an observer sees is complete, in order and constant",
     "At every callback the store of points shows the input's points in the order given plus exactly two artificial ones as head and tail, at equal height below and left respectively right of everything. All its views agree: by id, iterated with and without the artificial points, and in sweep order (y, then x) from any position on; each point carries exactly the lower ends of the segments it is the upper end of. Edge::new orders its ends the same way. Nothing changes during the run.",
     ["inputs", "histories"], "all " + DOM,
     "No test reads the store; sorting ties, the artificial points and per-point segments depend on all the coordinates.",
     [PT, SH, C], [("Points::new, views", PT), ("Edge::new", SH), ("segments per point", C + " parse_polyline")],
     [("points, edges, y_sorted, head, tail", "the store", PT)], ["Sweeper::points", "Edge::new"])
prop("C22", "Triangle queries are right for every corner and every pair",
     "At every observer callback, asking a triangle for a corner's index, its next and previous corner, the neighbour across it or beside it, or the constraint mark beside it, and asking a pair for their common edge, the opposite corner, or the neighbour's index, answers as the triangle's corners, neighbours and marks define it, whatever corner or pair is asked; a pair without a common edge has none. An id finds its triangle exactly if the mesh has one of that number.",
     ["inputs", "histories"], "all " + DOM + "; all corners, all pairs of neighbours and other pairs, at every callback",
     "Each query is a table over corner positions; the sweep itself only ever uses some of the entries, and tests check single examples.",
     [SH, "src/triangles.rs"], [("InnerTriangle", SH), ("TriangleStore, TriangleId", "src/triangles.rs")],
     [("triangles", "corners, neighbours, marks", SH)], ["Observer: triangles of the store"])
LIB, TR = "src/lib.rs", "src/triangles.rs"
prop("C05", "All ways of reading the result agree",
     "However a result is read, it describes the same triangles: iterating yields, in a fixed order, triangles whose corners are points()[i] for the index triples that triangle_list_indices() lists in the same order, each exactly once; at the end the iterator keeps returning nothing. Reading indices, points or data in between neither advances nor rewinds the iteration, and iterating changes none of them. Every index is valid for points() and data().",
     ["inputs", "histories"], "all " + DOM + "; any interleaving of next(), triangle_list_indices(), points() and data() on one result",
     "The tests either collect the iterator or read the indices, never both on one result, and never interleave them.",
     [C, PT], [("result iterator", C + " Triangles"), ("index list", C + " triangle_list_indices")],
     [("next", "iteration position", C)], ["Triangles: Iterator, points, data, triangle_list_indices"])
prop("C11", "The order and direction of the input does not matter",
     "For every valid input whose constrained Delaunay triangulation is unique, the returned set of triangles depends only on the region and the points: the polyline and each hole may start at any of their points and run either way, holes and Steiner points may be given in any order and in any number of calls, and Steiner points strictly outside of the polyline or inside a hole may be added or left out. In every other case the results still cover the same region with the same corners.",
     ["inputs"], "all " + DOM + ", and all their permutations, rotations and reversals",
     "No test compares the results of two equivalent inputs; any branch that depends on insertion order breaks it for a few arrangements only.",
     [C, PT, S, SH], [("sorting by y, x", PT), ("edge direction normalised", SH + " Edge::new"), ("interior flood fill", S)],
     [], ["CDT::triangulate"])
prop("C12", "The result follows the input when it is moved, mirrored or scaled",
     "For every valid input whose constrained Delaunay triangulation is unique, translating, mirroring, turning by 90 degrees, swapping the axes, or scaling by a power of two, whenever it is exact on the coordinates, gives the same triangles in terms of the points: there is no preferred place, direction or size, and no absolute tolerance.",
     ["inputs"], "all " + DOM + " with exact images; scale factors while squares and fourth powers stay in the range of the number type",
     "A metamorphic relation over pairs of inputs; the tests use one scale and never compare two results. Absolute tolerances and mirror-image mistakes stay unnoticed.",
     [U, S, A], [("geometric predicates", U), ("left and right variants of each event", S)], [], ["CDT::triangulate"])
prop("C13", "Loading a file equals building from its points, or reports an error",
     "A file is read line by line: two numbers separated by blanks or tabs are a point of the current section; HOLE and STEINER start a section; blank lines and line ends of either kind do not matter. If every line is one of these, loading gives the same triangles as building the same polyline, holes and Steiner points directly. A line with just one other column, or whose first two columns are not both numbers, makes it return an Inner error; an Io error is returned for a file that is missing, not readable or not text; never a panic. A loader can be used again after any outcome, with no influence of earlier files.",
     ["inputs", "histories"], "all sequences of line kinds (points, section names, blank lines, malformed lines) and white space, all number spellings that parse; histories of several files on one loader",
     "The tests load three fixed, well formed files; malformed lines, sections in unusual order, empty holes and re-use are not covered.",
     [L, C], [("line parser", L), ("builder calls per section", L)], [("points, holes, steiner points", "collected while reading", L)],
     ["PlainFileLoader::load", "LoaderError"])
prop("C14", "The single precision build gives the exact result as well",
     "Built with the f32 feature, for every valid input with f32 coordinates: the result is a valid constrained Delaunay triangulation of exactly those points (tiling, edges, empty circles, corners as for f64), and, where it is unique, the same triangles as the default build gives; the sweep obeys the same rules at each step.",
     ["inputs", "configurations"], "all " + DOM + " with f32 coordinates; default and f32 builds, with and without debug assertions",
     "The test suite is run with the default feature only; precision lost on one path needs nearly degenerate single precision inputs.",
     ["src/lib.rs", U, S, PT], [("Float alias", "src/lib.rs"), ("predicates in double precision", U)], [], ["CDT::triangulate with feature f32"])
prop("C15", "Triangulation is a pure function of the input",
     "Triangulating the same input again, in the same or another process, gives the same triangles in the same order, with or without an observer and whatever was triangulated before. A clone of a builder or of a CDT gives the result of its original, and later calls on one of them do not show in the other.",
     ["inputs", "histories"], "all " + DOM + "; repeated calls, clones at any moment, interleaved use of several builders",
     "Tests run each input once and look at counts; dependence on hash seeds, shared state or the observer shows only when runs are compared.",
     [S, C, TR], [("order of the result", S + " finalize_polygon"), ("Clone", C)], [("Context", "state of one run", S)], ["CDT::triangulate", "CDT::triangulate_with_observer", "Builder: Clone", "CDT: Clone"])
prop("C16", "Points and their data are kept in the order of the calls",
     "points() and data() list the polyline, then everything given by add_hole, add_holes, add_steiner_point and add_steiner_points, in the order of the calls and unchanged, each datum at the index of its point, whatever the mixture of calls and types used. The indices of the result refer to these lists, and constraints connect the points of the loop they were given in.",
     ["inputs", "histories"], "all call sequences on a builder with valid geometry; AsPoint types and data types of any kind",
     "The tests check data for a single shape and one order of calls; mixing single and batch calls, empty batches and holes after Steiner points is not tested.",
     [PT, C], [("points with data", PT), ("edges per point", C + " parse_polyline")], [("points, data, edges", "parallel lists", PT + ", " + C)], ["Builder", "Triangles::points", "Triangles::data"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P.sort(key=lambda p: p["id"])
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")

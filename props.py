import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

VO="trellis/src/vec_option.rs"; RT="trellis/src/ramp_table.rs"; GR="trellis/src/graph.rs"
p("C01","The optional-element vector behaves exactly like a vector of options",
 "After any sequence of operations (construction, push, pop, get, set, replace, swap, draining any range, compaction, extension, collecting, cloning, iteration in every flavour, conversion to a plain vector), the compact optional-element vector holds the same entries, in the same order, with the same length, as an ordinary vector of optional values given the same operations, and every operation returns the same result. A range or index that an ordinary vector rejects by panicking is rejected by panicking and leaves the contents usable. Compaction and conversion to a plain vector keep exactly the present values, in order.",
 ["histories","inputs"],"All histories of public operations over collections of any length (in particular across the 32-bit block boundaries of the presence bitmap), with any mix of present and absent entries, and any element type (zero-sized, word-sized, over-aligned, heap-owning).",
 "The existing tests are the doc examples plus one push: each performs at most a handful of operations on fewer than ten entries, never clones, never drains, and never crosses a bitmap block.",
 [VO],[("presence bitmap kept in step with element storage",VO+": VecOption push/pop/replace/swap/compact"),("range removal",VO+": Drain, bitvec_delete_range")],
 [("presence bitmap","which entries are present",VO+": VecOption::present"),("element storage","entries, possibly uninitialised",VO+": VecOption::vec")],
 ["return value of every public operation","full contents after every operation"])
p("C02","Every stored element is dropped exactly once and never duplicated",
 "Each value handed to the optional-element vector is at any time owned by exactly one party: still inside, or returned to the caller; it is destroyed exactly once over its life, by whoever owns it last, including when iterators, draining iterators and by-value conversions are abandoned half-way. If a user-supplied destructor, clone, comparison or source iterator panics in the middle of an operation, no element is destroyed twice and no absent entry is ever treated as an element, and the collection can still be inspected and dropped.",
 ["histories","fault_sequences"],"All operation histories, all points at which an iterator is abandoned or leaked, and all points at which user code called by the operation panics.",
 "Existing tests only store integers, characters and short strings, count no drops, and inject no panics.",
 [VO],[("drop of present elements only",VO+": Drop for VecOption"),("moves out of storage clear presence",VO+": replace_none, IntoIter, IntoSomeIter, Drain")],
 [("presence bitmap","which slots hold a live element",VO+": VecOption::present")],["creation, clone, drop of every element (ledger keyed by unique id)"])
p("C03","No memory error or undefined behaviour through the public API",
 "No sequence of calls to the library's public safe functions, whatever the arguments and element types, reads or writes memory out of bounds, uses freed or uninitialised memory, creates conflicting references, leaks an allocation that was dropped, or otherwise causes undefined behaviour; at worst it panics. No container or iterator can be handed to or shared with another thread unless its items can.",
 ["histories","inputs","fault_sequences"],"All histories of safe calls over all public modules, with emphasis on the optional-element vector, which is the part built on raw memory, for all element types, abandoned iterators and panicking callbacks; structures whose public fields were set so that they do not fit each other are included.",
 "The existing tests run without sanitizers and touch only a few entries; an out-of-bounds read or a double drop of plain data passes them silently.",
 [VO,"trellis/src/disjoint.rs"],[("unsafe reads and writes guarded by presence bits and length",VO+": all unsafe blocks"),("client of the uninitialised storage","trellis/src/disjoint.rs: find_disjoint_subgraphs")],
 None,["AddressSanitizer reports","live and mis-released blocks counted by a watching allocator","Miri reports","valgrind memcheck reports (thorough)"])
p("C04","Equality, ordering, hashing and cloning of the option vector agree",
 "Two optional-element vectors are equal exactly if they have the same length and equal entries; equal ones hash equally and compare as equal; a clone equals its original and is independent of it. Ordering is a total order (for totally ordered elements) that compares length first and then entries from the first to the last, with an absent entry before any present one, and the partial and total comparisons agree.",
 ["inputs","histories"],"All pairs and triples of collections, however they were built (different histories, capacities, leftover storage behind absent entries), including element types with incomparable values.",
 "No existing test compares, hashes, orders or clones a collection.",
 [VO],[("entry-wise comparison over the bitmap-aware iterator",VO+": PartialEq, PartialOrd, Ord, Hash, Clone")],None,["results of ==, partial_cmp, cmp, hash, clone"])
p("C05","The keyed table returns each key's values exactly as they were appended",
 "After any sequence of appends, key completions, whole-entry insertions, in-place edits and clears, every view of the keyed table (length, per-key slices, index ranges, forward and backward iteration with exact sizes, mutable iteration, key/value pair iteration in both forms, indexing, whole-value slices, equality and debug output) agrees with a simple list of lists built by the same calls. Pair iteration yields keys in non-decreasing order and values in insertion order; values not yet assigned to a key are visible only in the whole-value view.",
 ["histories","inputs"],"All histories of table operations, including empty keys in any position, no keys, and unowned trailing values.",
 "Existing tests are three doc examples with at most three keys; pair iteration, backward iteration and unowned values are never exercised.",
 [RT],[("offset index",RT+": RampTable::index, finish_key"),("pair iteration",RT+": iter_pairs, iter_pairs_manual")],
 [("index","start offset of every key",RT+": RampTable::index"),("values","all values",RT+": RampTable::values")],["every public accessor after every operation"])
p("C06","Building a keyed table from unordered pairs loses and reorders nothing",
 "For any sequence of (key, value) pairs given in any key order, the finished table maps every key from zero to the largest key to exactly the values given for it, in the order in which they were given; keys that were never given are present and empty, and no pair at all gives a table without keys.",
 ["inputs"],"All sequences of pairs, any key order, repeated keys, gaps, pushes mixed with bulk extension.",
 "No existing test uses the builder.",
 [RT],[("stable sort by key and gap filling",RT+": RampTableBuilder::finish")],None,["finished table"])
p("C07","The priority queue returns the greatest item and conserves items",
 "For any interleaving of inserts, removals and clears, each removal returns an item that is greatest among those inside (or nothing exactly if it is empty), and the items returned, dropped by clearing and still inside are together exactly the items inserted. The text shown of a queue holds exactly the items inside. No valid sequence of operations makes the queue panic.",
 ["histories"],"All interleavings of insert, remove and clear over any totally ordered items, including long queues, duplicates, sorted and reverse sorted runs.",
 "No existing test touches the priority queue.",
 ["trellis/src/priority_queue.rs"],[("binary heap sift up and sift down","trellis/src/priority_queue.rs: insert, remove")],[("heap","items in heap order","trellis/src/priority_queue.rs: PQ::pq")],["value returned by every removal"])
p("C08","Splitting a sequence into runs partitions it",
 "Splitting a slice into runs yields non-empty consecutive slices whose concatenation is the original slice; all items of a run match its first item (by the given test, or by equal keys), and a run ends only at the end of the slice or at an item that does not match. For the optional-element vector, the runs are exactly the maximal stretches of present entries, in order, both read-only and mutable.",
 ["inputs"],"All slices, tests and key functions (including tests that are not symmetric or transitive), and all presence patterns including ones crossing bitmap blocks.",
 "The slice splitters have no test at all; the option-vector runs are shown on two hand-written patterns of fewer than ten entries.",
 ["trellis/src/iters.rs",VO],[("run scanning","trellis/src/iters.rs: IterRuns, IterRunsByKey"),("find_next_run",VO+": find_next_run, IterRuns, IterRunsMut")],None,["every yielded slice, by address and length"],"re-export of the crate-private run iterators")
p("C09","Storage is compact, stays in place, and is asked for only when needed",
 "The option vector asks for no memory before an entry is pushed, holds never more than the room asked for or twice the most entries it had (an element's size plus one bit per entry), and asks for none while entries are pushed into reserved room, read, changed, popped or compacted. Conversion from a plain vector and back moves no item to another place. The keyed table and the queue fill room made beforehand without asking for more. Analysing a graph takes memory in proportion to its vertices and edges (and to the virtual vertices it makes).",
 ["histories","inputs"],"All histories of the option vector over elements of any size; all tables, queues and graphs, up to tens of thousands of entries, vertices and edges.",
 "No existing test looks at addresses, capacities or the allocator.",
 ["trellis/src/vec_option.rs","trellis/src/ramp_table.rs","trellis/src/priority_queue.rs","trellis/src/topo_sort.rs","trellis/src/disjoint.rs"],[("one allocation for items, one bitmap","trellis/src/vec_option.rs: VecOption (documented above the type), with_capacity, reserve, compact, some_into_vec, from_vec"),("two flat vectors","trellis/src/ramp_table.rs: RampTable::with_capacity, finish_key, push_value"),("flat marks per vertex","trellis/src/topo_sort.rs, trellis/src/disjoint.rs, trellis/src/layering.rs, trellis/src/find_chains.rs")],None,["requests to the allocator, live and peak bytes around each call","addresses of the items"])
p("C10","Every iterator obeys the laws of iterators however it is consumed",
 "Each iterator the library hands out (entries, present entries with their index, runs, draining and consuming ones of the option vector; keys, entries and values of the keyed table, from both ends where offered; edges of a graph and the vertices of a walk over it; runs of a slice; tokens of a text) gives the same items in the same order whether it is stepped, jumped over with nth, skip or step_by, searched, folded, counted, collected, chained or zipped; announces a size that includes the true number to come at every point; gives nothing more after its end; and may be abandoned anywhere without losing or doubling an item.",
 ["inputs","histories"],"All contents of the collections and every way of consuming an iterator, in any mixture, on builds with the verification hook (for the runs of plain slices).",
 "Existing tests walk iterators with for loops over a few short collections, and never ask for sizes, jump, or go on past the end.",
 ["trellis/src/vec_option.rs","trellis/src/ramp_table.rs","trellis/src/iters.rs","trellis/src/lib.rs",GR,"dot_parser/src/lexer.rs"],[("iterators of the option vector","trellis/src/vec_option.rs: Iter, IterMut, IterSome, IterRuns, Drain, IntoIter"),("exact size from both ends","trellis/src/ramp_table.rs: RampTable::iter"),("runs","trellis/src/iters.rs: IterRuns, IterRunsByKey"),("walks","trellis/src/lib.rs: traverse_depth_first_preorder"),("tokens","dot_parser/src/lexer.rs: Lexer")],None,["items, sizes and ends of each iterator under mixed consumption","ledger of items"])
p("G01","A graph reports exactly the edges it was built from",
 "A graph built edge by edge, by chains, by paths or vertex by vertex contains exactly the edges it was given: for each vertex the targets in the order they were added, parallel edges and self loops included. The number of vertices is one more than the largest vertex mentioned, the number of edges is the number added, and every way of listing edges gives the same edges in order of their starting vertex.",
 ["inputs","histories"],"All sequences of edge insertions in any vertex order, including gaps in vertex numbers, parallel edges and self loops.",
 "Existing tests build about a dozen tiny graphs and use them as input for other functions; none checks the edges of the result.",
 ["trellis/src/testing.rs",GR],[("gap filling and ordering by start vertex","trellis/src/testing.rs: GraphBuilder::build"),("edge listing",GR+": iter_edges_flattened, iter_from_edges, edges_from")],None,["edge lists of the built graph"])
p("G02","Transposing a graph reverses every edge and nothing else",
 "The transpose has the same vertices, and contains edge (b, a) exactly as many times as the graph contains (a, b); each vertex lists its reversed edges in order of the other end. Transposing twice gives the same edges as the original, and a graph whose target lists are sorted is reproduced exactly.",
 ["inputs"],"All well-formed graphs, with parallel edges, self loops, isolated vertices and empty graphs.",
 "The existing test prints the transposes of two graphs and asserts nothing.",
 [GR],[("counting in-degrees and scattering",GR+": Graph::transpose")],None,["edge multiset of the result"])
p("G03","Degree counts, sources, sinks and referenced vertices match the edges",
 "For any edge list the degree of each vertex is the number of times it occurs, stopping at the largest representable count instead of wrapping around, and the caller is told exactly if some count overflowed; counts accumulate over calls. A vertex is reported as source, sink or referenced exactly if no edge enters it, no edge leaves it, or some entry names it.",
 ["inputs","histories"],"All edge lists and graphs, including vertices named more often than the counter can represent, and starting counts near the limit.",
 "One test counts seven entries; overflow, sources, sinks and references are never checked.",
 ["trellis/src/lib.rs"],[("saturating count","trellis/src/lib.rs: add_degree, find_degree"),("source and sink scans","trellis/src/lib.rs: find_sources, find_sinks, find_referenced_edges")],None,["returned counts and flags"])
p("G04","Depth-first traversal visits exactly the walk tree, parents first",
 "Traversing an acyclic graph from a vertex yields, in order, every path that leaves the starting vertex exactly once (named by its last vertex): each vertex directly followed by everything below it, in the order in which its edges were added, and never the start itself. It is lazy, so that also on a cyclic graph any finite prefix is yielded.",
 ["inputs"],"All graphs and starting vertices: shared descendants, parallel edges, deep chains, and cyclic graphs (prefixes).",
 "No existing test calls the traversal.",
 ["trellis/src/lib.rs"],[("explicit stack of edge iterators","trellis/src/lib.rs: traverse_depth_first_preorder")],None,["yielded vertex sequence"])
TS="trellis/src/topo_sort.rs"
p("G05","Topological order puts every edge in order and omits only isolated ones",
 "If sorting a graph succeeds, the result lists each vertex that has at least one edge exactly once and no other vertex, and no edge leads from a later vertex to an earlier one (in the reverse sort: no path leads from an earlier vertex to a later one). The forward and the reverse sort are mirror images of each other.",
 ["inputs"],"All acyclic graphs: deep chains, wide fans, dense DAGs with any numbering, parallel edges, several disjoint parts, isolated vertices.",
 "Existing tests compare five acyclic graphs of at most seven vertices with fixed lists.",
 [TS],[("iterative depth-first search with post-order output",TS+": topo_sort_reverse, topo_sort")],[("visited / in_work_set","search state per vertex",TS)],["returned order"])
p("G06","A cycle is reported exactly when the graph has one",
 "Topological sorting (in both directions) and layering fail with the cycle error exactly if the graph contains a directed cycle, including self loops and cycles that are reachable only late or lie in a separate part; on every acyclic graph they succeed. They never panic or run forever on a well-formed graph.",
 ["inputs"],"All well-formed graphs, cyclic and acyclic; cycles of every length and position, next to large acyclic parts.",
 "Existing tests have three cyclic and five acyclic graphs.",
 [TS,"trellis/src/layering.rs"],[("in-progress set during the search",TS+": in_work_set"),("error propagation","trellis/src/layering.rs: create_layer_map")],None,["Ok or Err of topo_sort, topo_sort_reverse, create_layer_map"])
p("G07","Layering makes every edge point down and is as low as possible",
 "For every acyclic graph, each vertex gets the layer that is the length of the longest path from it to a vertex without outgoing edges; so every edge leads to a strictly lower layer, and vertices without outgoing edges are in layer zero. The layer count is one more than the highest layer used and at least one.",
 ["inputs"],"All acyclic graphs, including empty ones, isolated vertices, parallel edges, deep chains and edges that skip many layers.",
 "The existing test prints the layers of seven graphs and asserts nothing.",
 ["trellis/src/layering.rs"],[("layer from the targets in reverse topological order","trellis/src/layering.rs: create_layer_map")],None,["LayerMap"])
p("G08","The proper graph replaces each long edge by a chain over every layer",
 "For any acyclic graph and any layering in which all edges point down, the proper graph keeps the original vertices and numbers virtual ones after them; every original edge becomes one path from its start to its end that descends exactly one layer per step through virtual vertices of its own. There is nothing else: each virtual vertex has one incoming and one outgoing edge, and the totals of vertices and edges grow by exactly the number of layers skipped.",
 ["inputs"],"All acyclic graphs with all valid layerings (tight ones and ones with slack), parallel edges and long spans.",
 "No existing test calls it (and it panicked on every input before the fix recorded with this work).",
 ["trellis/src/layering.rs"],[("virtual vertex insertion","trellis/src/layering.rs: create_proper_graph")],None,["edges of the resulting graph"])
p("G09","Disjoint subgraphs are exactly the connected components",
 "Splitting a graph into disjoint subgraphs puts each vertex that has an edge into exactly one group, and no isolated vertex into any; two vertices are in the same group exactly if they are connected when the direction of edges is ignored. No group is empty and each lists its vertices in increasing order.",
 ["inputs"],"All graphs in all edge orders; in particular orders in which partial groups merge late, repeatedly, or through already merged ones.",
 "The existing test calls it on four graphs and asserts nothing.",
 ["trellis/src/disjoint.rs"],[("alias table with leaders","trellis/src/disjoint.rs: find_disjoint_subgraphs")],[("graph_alias","links between provisional groups","trellis/src/disjoint.rs")],["groups returned"])
p("G10","Chain finding reports every maximal chain once, with its two ends",
 "Each reported chain is a path along edges of the graph whose inner vertices (at least one) each have exactly one incoming and one outgoing edge, none a self loop, and whose two ends are not such vertices. Every such inner vertex is in exactly one chain, except those on cycles made only of such vertices, which are in none; there is one chain for each edge that enters an inner vertex from an end.",
 ["inputs"],"All graphs, with parallel edges, self loops, isolated cycles, chains that start and end at the same vertex, and many chains between the same ends.",
 "The existing test calls it on three graphs and asserts nothing.",
 ["trellis/src/find_chains.rs"],[("saturating degree classes","trellis/src/find_chains.rs: increment_degree, pack_degrees"),("chain walk","trellis/src/find_chains.rs: find_chains")],None,["chains returned"])
p("G11","A graph changed in place is as good as a fresh one",
 "A graph that is cleared and refilled, extended, or has edges added or redirected in place is in no way different from one newly built with the same edges: sizes, all listings, transpose, sources and sinks, sorts, layering, parts and chains are equal after every change. The check of well-formedness accepts a graph exactly if all its edges lead to vertices that exist.",
 ["histories"],"All histories of changes to a graph, with all analyses asked for between any two changes.",
 "Each existing test builds a graph once, asks one question and drops it.",
 ["trellis/src/graph.rs","trellis/src/ramp_table.rs","trellis/src/topo_sort.rs","trellis/src/disjoint.rs","trellis/src/layering.rs","trellis/src/find_chains.rs"],[("edges held in one table, nothing cached","trellis/src/graph.rs: Graph"),("keys and values changed in place","trellis/src/ramp_table.rs: push_value, finish_key, clear, iter_mut, table_values_mut"),("range check of targets","trellis/src/graph.rs: assert_graph_is_well_formed")],None,["all results after every change against a fresh graph"])
p("R01","The cheapest-path search finds a cheapest path whenever one exists",
 "Searching a weighted directed graph from one vertex to another returns a path exactly if the target is reachable, and the path runs along existing edges between the two vertices (listed from target to start) with the least possible total weight. The search finishes on every graph with non-negative weights, cycles and zero weights included, and on acyclic graphs with any weights.",
 ["inputs"],"All finite weighted graphs given by any edge function with any vertex numbers, cyclic or not, parallel edges and ties included; weights such that totals fit.",
 "The existing test is empty.",
 ["trellis/src/ortho/shortest_path.rs"],[("best-first search with a heap of partial paths","trellis/src/ortho/shortest_path.rs: find_shortest_path")],None,["returned path","calls of the edge function"])
V="trellis/src/pathplan/visibility.rs"
p("R02","Obstacle corners are linked exactly if they can see each other",
 "For disjoint simple polygonal obstacles listed clockwise, two corners are linked exactly if they are neighbours on one obstacle or the open segment between them meets no obstacle edge or corner and runs through no obstacle's inside; the link's value is their distance and is the same in both directions, and all other entries are zero. The corners, their order and each obstacle's walk are kept as given.",
 ["inputs"],"All sets of disjoint simple clockwise polygons (convex, reflex, nested notches, collinear corners across obstacles), any number of obstacles and corners.",
 "No existing test opens a set of obstacles (it panicked on every non-empty set before the fix recorded with this work).",
 [V,"trellis/src/pathplan/cvt.rs","trellis/src/pathplan/array2.rs"],[("cone and intersection tests",V+": inCone, clear, compVis"),("obstacle walk tables","trellis/src/pathplan/cvt.rs: Pobsopen")],[("vis","distance matrix",'trellis/src/pathplan/vis.rs: vconfig_t')],["the visibility matrix and walk tables"])
p("R03","Point visibility and point location agree with the geometry",
 "For a point outside all obstacles, or inside one that is then ignored, the visibility vector holds for each corner of the other obstacles its distance exactly if the open segment to it meets no other obstacle, and zero otherwise; two such points see each other directly exactly if no obstacle other than the ignored ones blocks the segment. A point is located in a convex obstacle exactly if it is inside or on its border, and obstacles are searched in order.",
 ["inputs"],"All obstacle sets and points: outside, inside an obstacle, ignored obstacles in any index order, unknown location, collinear configurations.",
 "No existing test computes visibility of a point.",
 [V,"trellis/src/pathplan/in_poly.rs"],[("segment test with skipped obstacles",V+": ptVis, directVis, clear"),("point location",V+": polyhit; trellis/src/pathplan/in_poly.rs: in_poly")],None,["visibility vectors, direct visibility, located polygon"])
p("R04","Routes around obstacles are valid and as short as possible",
 "The predecessor table for two points leads from the second point to the first through corners, each step between places that see each other, and its total length is the least possible over all such routes; if they see each other directly the route is the straight segment. The same holds for the shortest-path table over any symmetric weighted graph given as a matrix, for every target that can be reached.",
 ["inputs"],"All obstacle sets with two points, and all symmetric non-negative weight matrices with any pair of root and target, including unreachable targets, ties and equal points.",
 "No existing test computes a route.",
 ["trellis/src/pathplan/shortestpth.rs"],[("Dijkstra over the lower triangle with a sentinel","trellis/src/pathplan/shortestpth.rs: shortestPathGeneric"),("matrix extended by two visibility vectors","trellis/src/pathplan/shortestpth.rs: makePath")],None,["predecessor table"])
p("R05","The shortest path inside a polygon stays inside and is shortest",
 "For a simple polygon (given in either direction, starting at any corner; a corner given several times in a row counts once) and two points inside it or on its border, the result starts and ends at the points, bends only at corners of the polygon, never leaves the polygon, and is no longer than any other path inside it. A point outside the polygon is reported as not found.",
 ["inputs"],"All simple polygons in general position, both orientations and all starting corners, convex or with many reflex corners, with corners given once or several times in a row (the last one given differs from the first), and all pairs of points inside, on the border or at corners.",
 "No existing test computes a path in a polygon (it panicked on every input before the fix recorded with this work).",
 ["trellis/src/pathplan/shortest.rs"],[("triangulation and sleeve","trellis/src/pathplan/shortest.rs: triangulate, connect_tris, mark_tri_path"),("funnel deque","trellis/src/pathplan/shortest.rs: finddqsplit, add2dq")],[("deque","funnel of the path","trellis/src/pathplan/shortest.rs: deque_t")],["returned polyline or error"])
p("R06","Fitted splines keep the ends, the bends and the barriers",
 "Fitting a spline to a polyline gives a chain of cubic pieces that starts and ends at the ends of the polyline and whose joints are corners of it in order; it leaves and arrives along the given end directions wherever no barrier is near, is smooth at joints unless a straight piece was forced, and no piece crosses a barrier that the polyline does not cross, away from the barrier's ends. A polyline of two points always gives one piece. The order of the barriers, repeating one, barriers of zero length, and what the output held before, make no difference.",
 ["inputs"],"All polylines of at least two points, neighbouring ones distinct, all end directions (also zero), and all sets of barriers, far away, grazing and close to the polyline.",
 "No existing test fits a spline.",
 ["trellis/src/pathplan/route.rs"],[("least-squares fit, shrink and split","trellis/src/pathplan/route.rs: reallyroutespline, mkspline, splinefits"),("barrier test by root finding","trellis/src/pathplan/route.rs: splineisinside, splineintersectsline")],None,["output control points"])
p("R07","The cubic solver returns all real roots and nothing else",
 "For any polynomial of degree at most three the solver reports only values at which the polynomial vanishes (up to rounding) and every real root that is clearly separated from the others, as well as repeated ones where the coefficients are whole numbers small enough that nothing is rounded; the count is at most three, except that the identically zero polynomial is reported by the count four. A leading coefficient that is zero lowers the degree, and a non-zero constant has no roots.",
 ["inputs"],"All coefficient vectors of moderate magnitude (a coefficient below 1e-7 counts as zero), leading ones that are small beside the rest included: three, two or one real roots, repeated roots, complex pairs, every degenerate degree and sign pattern.",
 "No existing test calls the solver.",
 ["trellis/src/pathplan/solvers.rs"],[("closed-form solution with degree fallback","trellis/src/pathplan/solvers.rs: solve3, solve2, solve1")],None,["count and roots"])
p("R08","Triangulating a simple polygon covers it exactly",
 "For every simple polygon listed clockwise without collinear neighbours, triangulation emits two triangles fewer than there are corners; all triangles use only corners of the polygon, do not overlap, lie inside the polygon, and together have exactly its area. The polygon given is not changed.",
 ["inputs"],"All simple clockwise polygons in general position, convex, spiral, comb-shaped and random.",
 "No existing test triangulates a polygon.",
 ["trellis/src/pathplan/triang.rs"],[("ear cutting by diagonals","trellis/src/pathplan/triang.rs: triangulate, dpd_isdiagonal")],None,["emitted triangles"],"wrapper around the crate-private triangulation entry point")
p("R09","A curve fitted to a shortest route stays in free space",
 "Taking the whole way from obstacles (or from a polygon with two points inside it) over the shortest route between two points to a curve fitted to that route, with the sides of the obstacles (or of the polygon) as barriers: every point of the curve lies in free space, outside all obstacles or inside the polygon, up to a small rounding error. Only close to a corner may the curve graze the border, and it never takes a short cut through an obstacle, not even one that enters and leaves exactly at corners.",
 ["inputs"],"All sets of disjoint simple polygonal obstacles and all simple polygons with any two points in free space, and any end directions of the curve.",
 "No existing test computes a route or fits a curve, and none joins the two.",
 ["trellis/src/pathplan/route.rs","trellis/src/pathplan/shortestpth.rs","trellis/src/pathplan/visibility.rs","trellis/src/pathplan/shortest.rs","trellis/src/pathplan/cvt.rs"],[("a candidate shorter than the route is refused","trellis/src/pathplan/route.rs: splinefits"),("barrier test by root finding","trellis/src/pathplan/route.rs: splineisinside, splineintersectsline"),("the route the curve follows","trellis/src/pathplan/shortestpth.rs: makePath; trellis/src/pathplan/shortest.rs: Pshortestpath")],None,["points of the fitted curve against the obstacles"])
p("M01","An elliptical wedge is a closed outline of the right arc",
 "The outline of a wedge starts and ends at the centre, consists of a straight line to the point of the ellipse at the start angle, cubic pieces, and a straight line back; all joints of the arc and all points in between lie on the ellipse within a small tolerance. The arc sweeps counter-clockwise from the start angle to the end angle (angles taken modulo a full turn; an end angle given as exactly one turn past the start means the whole ellipse), covering it exactly once without gaps.",
 ["inputs"],"All centres, positive semi-axes (either longer, up to strong eccentricity), and start and end angles, including tiny arcs and almost full turns.",
 "The existing test prints one wedge and asserts nothing.",
 ["trellis/src/common/ellipse.rs"],[("angle normalisation","trellis/src/common/ellipse.rs: initEllipse"),("subdivision by error estimate","trellis/src/common/ellipse.rs: gen_elliptic_path, estimateError")],None,["move, line, curve and end calls on the path target"])
p("M02","Box, distance, rounding and unit helpers obey their geometric laws",
 "For boxes and points with finite coordinates: membership, containment and overlap agree with the points the boxes consist of (borders included); expanding gives the smallest box around both, clipping gives the common part; distances are symmetric and Euclidean. Rounding goes to the nearest integer with halves away from zero, and conversions between units, angles and integer and real geometry invert each other up to rounding.",
 ["inputs"],"All finite coordinates, including negative, equal, degenerate and touching boxes, halves and values around integer limits.",
 "No existing test calls these helpers.",
 ["trellis/src/common/geom.rs","trellis/src/common/arith.rs","trellis/src/math.rs","trellis/src/vec2.rs"],[("box predicates","trellis/src/common/geom.rs: INSIDE, OVERLAP, CONTAINS, EXPANDBP, EXPANDBB, CLIPBB"),("rounding and units","trellis/src/common/arith.rs: ROUND; trellis/src/common/geom.rs: POINTS, PF2P")],None,["returned values"])
p("M03","Colour conversions are consistent between colour models",
 "Converting a colour from red-green-blue to hue-saturation-value and back gives the same colour, all components stay between zero and one, and grey has saturation zero. In cyan-magenta-yellow-black form all components are between zero and one, at least one of the three colours is zero, and each plus black is the complement of the corresponding primary.",
 ["inputs"],"All colours with components between zero and one, including the sector borders of the hue circle, greys, black, white and full-turn hue.",
 "No existing test converts a colour.",
 ["trellis/src/common/colxlate.rs"],[("sector formulas","trellis/src/common/colxlate.rs: hsv2rgb, rgb2hsv, rgb2cmyk")],None,["converted components"],"wrappers around the crate-private conversion functions")
p("M04","Turns, betweenness and matrix cells follow their definitions",
 "For any three points the doubled area of their triangle carries the sign of their turn: swapping two points negates it, rotating or shifting all three leaves it unchanged, and two equal points give zero. The turn reported is its sign, and straight exactly if its amount is at most 0.0001. For points on one line, one is between two others exactly if it lies strictly inside the segment, in whichever order the ends are given. A matrix of any shape holds in each cell, extra columns included, the value last stored there and zero before; storing in one cell changes no other.",
 ["inputs","histories"],"All triples of points (collinear at any ratio, nearly collinear, equal, vertical, horizontal, at any scale and any distance from the origin), all matrix shapes and histories of stores.",
 "No existing test calls these helpers directly; a wrong sign or a mixed-up cell shows only in special positions.",
 ["trellis/src/pathplan/visibility.rs","trellis/src/pathplan/array2.rs"],[("cross product and its tolerance","trellis/src/pathplan/visibility.rs: area2, wind"),("strict comparison of coordinates","trellis/src/pathplan/visibility.rs: inBetween"),("row-major cells","trellis/src/pathplan/array2.rs: Array2::new, index, index_mut, allocArray")],None,["returned values","all cells after each history"])
p("M05","Plane vectors and number helpers obey the laws of arithmetic",
 "For every number type: adding and subtracting vectors and multiplying or dividing them by a number work on each coordinate exactly, addition commutes, and on whole numbers it is associative, undone by subtraction and distributes over multiplication; vectors of anything are equal exactly if both coordinates are, convert to and from pairs without change and print both coordinates in full. A direction made from an angle has length one, the cosine and sine of the angle as coordinates, and turning adds angles. Least, greatest, sign, comparison, betweenness, mean, square and approximate equality of numbers follow their definitions.",
 ["inputs"],"All coordinates of all integer and real number types for which nothing overflows, zero, negative, huge and tiny numbers included; all angles.",
 "No existing test calls these helpers.",
 ["trellis/src/vec2.rs","trellis/src/math.rs","trellis/src/common/arith.rs","trellis/src/common/geom.rs"],[("operators","trellis/src/vec2.rs: Add, Sub, Mul, Div, from_angle, From"),("number helpers","trellis/src/common/arith.rs: MIN, MAX, CMP, SGN, BETWEEN, AVG, SQR; trellis/src/math.rs: sqr, fmin, fmax")],None,["returned values"])
LX="dot_parser/src/lexer.rs"
p("X01","The lexer returns exactly the tokens written, in order",
 "Any sequence of tokens (punctuation, arrow, identifiers, integers, decimals, quoted strings with their escapes) written out with any white space between them, or with none where two neighbours cannot merge, is returned as the same sequence with the same values, and without errors. Digits, letters, escapes and non-ASCII characters inside strings are kept as documented: the escapes for newline, tab and carriage return are translated and any other escape is kept verbatim.",
 ["inputs"],"All token sequences and all spacings between them, with Unicode white space, Unicode string contents, largest integers, long decimals, and adjacent tokens without space.",
 "Existing tests lex five short texts with fixed results, and one long text whose tokens are not checked.",
 [LX],[("character dispatch",LX+": Lexer::next"),("number, identifier and string scanning",LX+": parse_number, parse_ident, parse_quoted_string")],None,["token sequence and error list"])
p("X02","The lexer ends on every text and reports the first bad place exactly",
 "For every text the lexer terminates without panicking, and it returns tokens up to the first place that is not a valid token and no token for that place; then it reports exactly one error whose printed line and column (counted in characters from one) are those where the offending token starts. Without such a place it reports no error. (An unknown character is a token of its own; a quote that is not closed starts its token; a malformed number such as 1.2.3 is one token.)",
 ["inputs"],"All strings, valid or not: unknown characters, lone dashes, unterminated strings, overlong integers, multi-byte characters and line breaks before the error.",
 "One existing test has an unterminated string and ignores the error's text and place.",
 [LX],[("error recording",LX+": add_error"),("offset to line and column",LX+": map_offset_to_line, write_errors")],None,["tokens before the error","has_errors, errors, write_errors output"])
p("N01","Results depend on the arguments only, also under concurrent use",
 "Calling any analysis, routing or lexing function again with the same arguments gives the same result, whatever was computed before, on whichever thread, and however many threads use the same shared input at the same time; inputs passed for reading are left unchanged. There is no data race between threads that only read shared inputs.",
 ["schedules","histories"],"All interleavings of calls on any number of threads over shared inputs, and all call histories before a call.",
 "Each existing test calls each function once, on one thread's own input, and compares nothing across calls or threads.",
 ["trellis/src/graph.rs","trellis/src/topo_sort.rs","trellis/src/disjoint.rs","trellis/src/pathplan/shortestpth.rs","trellis/src/testing.rs"],[("no global or shared mutable state","whole crate"),("results independent of hash map iteration order","trellis/src/testing.rs: GraphBuilder::build; trellis/src/ortho/shortest_path.rs")],None,["results compared across threads, orders and repetitions","ThreadSanitizer reports"])
p("N02","Logging changes nothing, and the library itself stays silent",
 "Whatever logger is installed, at whatever level, every call gives the same result as without one, and no message that is being logged makes the call fail; a logger may itself use the library. If the logger panics, that is passed on, and the inputs and later calls are unharmed. The library writes nothing to standard output or standard error by itself, and leaves no thread, open file or changed environment behind.",
 ["inputs","histories"],"All calls on all inputs, under all log levels and loggers, including ones that fail or call back.",
 "Existing tests run without a logger, so no message of the library is ever formatted, and nothing looks at what is printed.",
 ["trellis/src/disjoint.rs","trellis/src/topo_sort.rs","trellis/src/layering.rs","trellis/src/find_chains.rs","trellis/src/graph.rs","dot_parser/src/lexer.rs"],[("messages with arguments that index and format","trellis/src/disjoint.rs, trellis/src/topo_sort.rs: debug!, trace!"),("no output but through the logger","whole crate")],None,["results with and without a logger","standard output and standard error, threads and open files of a process that makes the calls"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

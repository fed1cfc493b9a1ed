"""What each check runs: workers, builds and numbers of cases."""


def both(b, quick, thorough, **kw):
    """The same worker with debug assertions and overflow checks, and optimised without."""
    return [dict(bin=b, variant="dev", quick=quick // 2, thorough=thorough // 2, **kw),
            dict(bin=b, variant="rel", quick=quick - quick // 2, thorough=thorough - thorough // 2, **kw)]


def hooked(b, quick, thorough, **kw):
    return [dict(bin=b, variant="hdev", quick=quick // 2, thorough=thorough // 2, **kw),
            dict(bin=b, variant="hrel", quick=quick - quick // 2, thorough=thorough - thorough // 2, **kw)]


def giant(b, quick, thorough, variant="rel", **kw):
    """A few cases of a size that would be too dear for every run (scale 3)."""
    return [dict(bin=b, variant=variant, quick=quick, thorough=thorough, scale=3, **kw)]


def asan(b, quick, thorough, **kw):
    return [dict(bin=b, variant="asan", quick=quick, thorough=thorough, sanitize_only=True, **kw)]


def miri(b, quick, thorough, **kw):
    return [dict(bin=b, variant="miri", quick=quick, thorough=thorough, scale=0, sanitize_only=True, **kw)]


def valgrind(b, thorough, **kw):
    return [dict(bin=b, variant="valgrind", quick=0, thorough=thorough, tier="thorough", sanitize_only=True, **kw)]


PLAN = {
    "C01": both("c01", 500_000, 12_000_000),
    "C02": both("c02", 1_000_000, 20_000_000),
    "C03": both("c03", 500_000, 12_000_000)
    + asan("c03", 120_000, 3_000_000) + asan("c01", 60_000, 2_000_000) + asan("c02", 60_000, 2_000_000)
    + asan("c04", 60_000, 2_000_000) + asan("g09", 20_000, 500_000)
    + miri("c03", 160, 6_000) + miri("c01", 80, 4_000) + miri("c02", 80, 4_000) + miri("c04", 80, 4_000)
    + miri("g09", 40, 2_000)
    + valgrind("c03", 60_000) + valgrind("c02", 20_000),
    "C04": both("c04", 600_000, 16_000_000),
    "C05": both("c05", 300_000, 8_000_000),
    "C06": both("c06", 1_200_000, 24_000_000) + giant("c06", 24, 240),
    "C07": both("c07", 1_500_000, 30_000_000) + giant("c07", 16, 160),
    "C08": hooked("c08", 400_000, 12_000_000, hook="iters", without="hooks"),
    "C09": both("c09", 1_200_000, 8_000_000),
    "C10": hooked("c10", 3_000_000, 60_000_000, hook="iters", without="hooks")
    + giant("c10", 48, 480, "hrel", hook="iters", without="hooks"),
    "G01": both("g01", 200_000, 5_000_000) + giant("g01", 24, 240),
    "G02": both("g02", 1_500_000, 30_000_000),
    "G03": both("g03", 2_000_000, 40_000_000),
    "G04": both("g04", 3_000_000, 60_000_000) + giant("g04", 16, 160),
    "G05": both("g05", 3_000_000, 60_000_000) + giant("g05", 24, 240),
    "G06": both("g06", 3_000_000, 60_000_000) + giant("g06", 24, 240),
    "G07": both("g07", 3_000_000, 60_000_000) + giant("g07", 24, 240),
    "G08": both("g08", 3_000_000, 60_000_000) + giant("g08", 64, 800),
    "G09": both("g09", 2_000_000, 40_000_000) + giant("g09", 24, 240),
    "G10": both("g10", 3_000_000, 60_000_000) + giant("g10", 24, 240),
    "G11": both("g11", 300_000, 6_000_000),
    "R01": both("r01", 4_000_000, 80_000_000) + giant("r01", 24, 240),
    "R02": both("r02", 240_000, 6_000_000) + giant("r02", 80, 2000),
    "R03": both("r03", 700_000, 14_000_000) + giant("r03", 80, 2000),
    "R04": both("r04", 240_000, 6_000_000) + giant("r04", 240, 6000),
    "R05": both("r05", 700_000, 14_000_000) + giant("r05", 900, 12000),
    "R06": both("r06", 1_000_000, 20_000_000) + giant("r06", 80, 2000),
    "R07": both("r07", 5_000_000, 100_000_000),
    "R08": hooked("r08", 900_000, 18_000_000, hook="triang") + giant("r08", 80, 2400, "hrel", hook="triang"),
    "R09": both("r09", 400_000, 8_000_000) + giant("r09", 80, 2000),
    "M01": both("m01", 260_000, 6_000_000),
    "M02": both("m02", 6_000_000, 120_000_000),
    "M03": hooked("m03", 6_000_000, 120_000_000, hook="colour"),
    "M04": both("m04", 3_000_000, 60_000_000) + giant("m04", 48, 480),
    "M05": both("m05", 4_000_000, 80_000_000),
    "X01": both("x01", 2_500_000, 50_000_000),
    "X02": both("x02", 3_000_000, 60_000_000),
    "N01": both("n01", 4_000, 100_000)
    + [dict(bin="n01", variant="tsan", quick=800, thorough=16_000)],
    "N02": both("n02", 24_000, 500_000),
}
G = "graphs are drawn in families (random, acyclic, dense, deep, chains, rings, stars, several parts, parallel edges, self loops; a few hundred vertices at most, deep ones more), "
RULES = {
    "C01": "each case is a generated history of operations on one collection, mirrored on Vec<Option<id>>; "
           "non-trivial if it uses at least three kinds of operation; distinct by the log of operations",
    "C02": "each case is a generated history of operations over elements with identities in a ledger, with faults injected "
           "(panicking destructor, clone, comparison or source iterator) and iterators abandoned; non-trivial if it uses at "
           "least three kinds of operation, or counts zero-sized elements; distinct by the log of operations",
    "C03": "each case drives one group of public calls with arbitrary arguments (histories of the option vector over several "
           "element types, graphs that name missing vertices, tables, queues with a senseless order, degenerate geometry, any "
           "text) under a watching allocator, AddressSanitizer or the Miri interpreter; every case counts; distinct by the choices made",
    "C04": "each case is a triple of collections with chosen contents, each built by its own history, compared with the "
           "vectors of options; non-trivial if the first is not empty; distinct by the contents and the element type",
    "C05": "each case is a history of table operations mirrored on a list of lists, all views compared after each; "
           "non-trivial if at least two keys exist and one is not empty; distinct by operations and contents",
    "C06": "each case is a sequence of pairs given by pushes and extensions; non-trivial if the keys are not given in "
           "order; distinct by the keys",
    "C07": "each case is a history of inserts, removals and clears mirrored on a multiset, items tracked in a ledger; "
           "non-trivial if at least three items are removed; distinct by the history",
    "C08": "each case is a slice with a test or key function, or an option vector with a pattern of present entries; "
           "non-trivial if it has at least two items (or two runs of present entries); distinct by the contents and test",
    "C09": "each case is a history of one option vector over one element type, a keyed table, a queue or a graph with all its "
           "analyses, every call wrapped in an account of the allocator; non-trivial if the history has at least three steps "
           "(or the table two keys, the graph four vertices and edges); distinct by the history or graph",
    "C10": "each case is one iterator over a generated collection, graph or text, with a plan of up to nine mixed steps and a "
           "way to finish; non-trivial if there are at least two items and the plan does more than abandon it; distinct by the "
           "kind of iterator, the number of items and the plan",
    "G01": "each case builds one graph by a generated sequence of builder calls; non-trivial if at least two edges are "
           "added; distinct by the edges in order",
    "G02": G + "non-trivial if the graph has at least two edges; distinct by the graph",
    "G03": G + "and edge lists are counted in 16 bit counters with starting counts; non-trivial if anything "
           "is counted or an edge exists; distinct by the list or graph",
    "G04": G + "and traversed from several vertices; non-trivial if at least two vertices are visited; distinct by graph and start",
    "G05": G + "acyclic here; non-trivial if at least three vertices are ordered; distinct by the graph",
    "G06": G + "about half of them with a cycle planted; non-trivial if the graph has at least two edges; distinct by the graph",
    "G07": G + "acyclic here; non-trivial if there are at least two layers; distinct by the graph",
    "G08": G + "acyclic here, with tight and slack layerings; non-trivial if an edge skips a layer; distinct by graph and layering",
    "G09": G + "vertices and edges renumbered and reordered; non-trivial if the graph has at least two edges; distinct by the graph",
    "G10": G + "with chains planted between ends; non-trivial if a chain is expected; distinct by the graph",
    "G11": "each case is a history of up to a dozen changes to one graph, all analyses after each; non-trivial if the graph has at "
           "least two edges at some time; distinct by the edges after each change",
    "R01": "each case is a weighted graph with chosen vertex numbers and a pair of vertices; non-trivial if the path has at "
           "least three vertices; distinct by the graph and the pair",
    "R02": "each case is a set of disjoint simple clockwise polygons with integer corners; non-trivial if there are at least "
           "two and some pair of corners is hidden; distinct by the corners",
    "R03": "each case is a set of such polygons with points in or outside them, on or off the lines through corners; "
           "non-trivial if a point sees some corners and not others, or points are located; distinct by corners and points",
    "R04": "each case is a set of such polygons with two points, or a symmetric weight matrix; non-trivial if a route "
           "bends; distinct by the input",
    "R05": "each case is a simple polygon in general position, rotated and perhaps reversed, with two inner points; "
           "non-trivial if the path bends; distinct by corners and points",
    "R06": "each case is a polyline with end directions and barriers (often a shortest path inside a polygon whose sides are the "
           "barriers); non-trivial if several pieces result or there are barriers; distinct by the coordinates",
    "R07": "each case is a set of coefficients from chosen roots, chosen degrees or arbitrary values; every case counts; "
           "distinct by the bits of the coefficients",
    "R08": "each case is a simple clockwise polygon without collinear neighbours; non-trivial if it has more than four "
           "corners; distinct by the corners",
    "R09": "each case is a set of obstacles or a polygon with two points, their shortest route and a curve fitted to it; "
           "non-trivial if the route bends; distinct by corners and points",
    "M01": "each case is a centre, two semi-axes and two angles; every case counts; distinct by the bits of the arguments",
    "M02": "each case is a set of boxes and points, a number to round or convert, or vectors; every case counts; distinct "
           "by the bits of the arguments",
    "M03": "each case is a colour in one model; every case counts; distinct by the bits of the components",
    "M04": "each case is a triple of points in ten arrangements, or a matrix with a history of stores; non-trivial if there "
           "are points, or two stores; distinct by coordinates and scale, or by the cells stored to",
    "M05": "each case is three vectors and a factor of one number type, three numbers, or two angles; every case counts; "
           "distinct by the values",
    "X01": "each case is a sequence of tokens written out with chosen spacing; non-trivial if it has at least two tokens; "
           "distinct by the text",
    "X02": "each case is any text, put together from valid and invalid pieces and arbitrary characters; non-trivial if it is "
           "not empty; distinct by the text",
    "N01": "each case is two bundles of inputs over which all calls are repeated, reordered, run on threads at once and in a "
           "fresh process; every case counts; distinct by the inputs",
    "N02": "each case is one bundle of inputs over which calls are made without and with loggers of several kinds, or in a "
           "child process whose output is kept; every case counts; distinct by the inputs",
}
VO = ["the model Vec<Option<T>> of the standard library is right"]
GEO = ["coordinates are integers small enough for the oracle's exact arithmetic and for doubles to hold every "
       "intermediate value of the code without rounding"]
ASSUME = {
    "C01": VO, "C02": ["the ledger sees every clone, destruction and hand-over, since the elements report them"],
    "C03": ["stack overflow, abort on exhausted memory and endless computation on inputs outside an algorithm's domain are "
            "not memory errors", "the red zones of the sanitizer and the interpreter's aliasing model (stacked borrows) are "
            "what is meant by undefined behaviour"],
    "C04": VO, "C08": ["the hook that makes the crate-private iterators reachable forwards without changing anything"],
    "C09": ["a method that is linear takes at most 256 bytes for each vertex and edge (the present ones take at most 35)"],
    "M04": ["coordinates are dyadic, so that the area is exact in doubles whatever the order of the operations"],
    "R01": ["the sum of the weights of a path fits the weight type"],
    "R02": GEO, "R03": GEO, "R04": GEO, "R05": GEO, "R08": GEO,
    "R06": ["curves are sampled: a crossing between two samples that is shorter than the tolerance is not seen"],
    "R07": ["a root counts as clearly separated by the distance written in the worker, scaled by the coefficients"],
    "M01": ["deviation up to 1e-5 of the longer semi-axis counts as rounding of the construction"],
    "R09": ["curves are sampled; within 0.1 of the border (coordinates in the tens to thousands) counts as rounding"],
    "N01": ["the operating system interleaves the threads in different ways; the interleavings are not enumerated"],
}

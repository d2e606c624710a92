import json
R = {}
def r(i, cost, spec, bind, why): R[i] = dict(cost=cost, spec=spec, bind=bind, why=why)

r("C01", 12, "`MPI.tla`: ranks are program counters over a list of communication operations (send, receive, broadcast, reduction, gather, barrier); a send is buffered or waits (both explored); invariants: no rank waits for ever (deadlock), nothing left unreceived, all ranks end alike.",
  "B, then explored: the communication program of every rank is recorded from real runs on a simulated communicator (lib/fakempi.py) and TLC executes *all* interleavings and bufferings of it; in addition real runs under adversarial schedules of the simulated communicator, with a deadlock detector. Failing starts (no points on a rank, no convergence on one rank) are included.",
  "a machine gives one schedule with buffered messages; TLC covers all of them for the recorded programs")
r("C02", 23, "`Exchange.tla`: processes that exchange with their neighbours, all export tables of small blocks, all interleavings; what has to arrive is printed. `GhostTrace.tla`: relation between what a rank owned, received, and kept after an iteration.",
  "A: tables and expected receipts replayed into enqueue + exchange under schedules. B: every iteration of recorded parallel runs is judged by GhostTrace.",
  "a lost or duplicated vertex hardly changes total area")
r("C03", 5, "`Enqueue.tla`: exact rational circumballs against the extents (scaled integer arithmetic).",
  "B: exports of the real code for triangulations of lattice points and arbitrary extents, judged vertex by vertex; touching counts either way.",
  "a missing export surfaces only as a rare non-conforming cell between blocks")
r("C04", 5, "`Gather.tla`: concatenation in rank order with shifted cells, duplicates merged.",
  "B: products of block kinds (empty, one cell, unused vertices, shared vertices) on 1..5 ranks.",
  "tests use two ranks and compare areas")
r("C05", 5, "`Blocks.tla`: slices of equal width, each point in one slice, extents, the order along the axis; generated points of ranks lie in their slabs without gaps and doubles.",
  "A+B: all small clouds per axis, random ones; first triangulations of recorded parallel runs.",
  "tests never look at blocks")
r("C06", 5, "`Localize.tla`: value of a polynomial size field and by how much linear interpolation may deviate, in exact integers.",
  "B: the localized size functions of all ranks evaluated in their slab and two edge lengths around it.",
  "the only test uses a mild field and compares the area")
r("C07", 21, "`Delaunay.tla`: exact in-circle/in-sphere predicates, orientation, conformity, hull volume. `DelaunayHist.tla`: state machine of insert/remove/move on a lattice. `DelaunayTrace.tla`: listing after every operation.",
  "A: all histories up to a bound enumerated by TLC are replayed in the C++ classes. B: long random histories are trace-checked. All listings (`vertices`, `cells`, finite counts) are compared with the state of the specification.",
  "moves and removals in degenerate positions are never tested")
r("C08", 100, "`MeshCase.tla`: every face of at most two cells in opposite directions, positive orientation, no unused or doubled vertex, no two cells over a probe point.",
  "B: meshes of serial and scheduled parallel runs (sizes, domains, options, ranks), orientation computed exactly from the doubles (fractions), judged by TLC.",
  "tests compare areas")
r("C09", 70, "`Shapes.tla`, `Geom.tla`, `Conform.tla`: the domain as a tree of primitives with exact membership; vertices not outside, boundary vertices on the boundary, points of the domain deeper than a length are covered, the volume of boxes is filled, faces follow subdomain interfaces.",
  "B: recorded meshes, serial and on 2 ranks, as integers; TLC evaluates the signed distance of every vertex.",
  "tests compare areas with per cents of tolerance")
r("C10", 40, "`Fixed.tla`: which corners and user points have to be vertices (deep in the domain or on its boundary, far enough from others) derived from the tree.",
  "B: recorded meshes; distance to the nearest vertex in millionths of h.",
  "one test with points along one edge")
r("C11", 11, "`History.tla`: all sequences of calls of a list up to a length. `HistoryTrace.tla`: the result of a call is a function of the call, arguments stay as they were.",
  "A: the sequences are replayed in one process (bitwise digests of results and arguments), under perturbed global random state, and parallel runs under different schedules.",
  "tests call each function once per process")
r("C12", 11, "`Csg.tla`, `Shapes.tla`: membership of a point in an expression tree by set algebra, exact.",
  "A: all trees of two and three base shapes and all nested pairs, on full lattices of points; random deeper trees, smoothness, repetitions. Sign of the code's `eval` is compared.",
  "three tests mesh a combination of two shapes")
r("C13", 18, "`Moved.tla`: the inverse motion in rationals, membership in the primitive; bounding box and corners.",
  "A: primitives x Pythagorean rotations x stretches x translations on lattices; boxes of combinations by Csg.",
  "two tests rotate and stretch a box")
r("C14", 9, "`Gradation.tla`: state machine that lowers one value at a time; TLC explores all orders on all small fields and proves (for the bounds) that every behaviour ends in min_j f(j) + g d(i,j). `Limited.tla`: the closed form as a judge.",
  "A: all small fields replayed into the limiter; B: large random ones and fields of the sizing pipeline.",
  "tests count vertices of a mesh with gradation")
r("C15", 7, "`Sizing.tla`, `Grid.tla`: the pipeline of the sizing rules (wavelength, gradient, hmin/hmax, Courant, gradation, boundary points, refusals) as arithmetic on small integers.",
  "B: recorded size functions and accepted/refused calls of random models and option combinations, evaluated at all nodes; all pairs of option classes.",
  "three models, number of vertices only")
r("C16", 9, "`Sizing.tla`, `Model.tla`: which nodes are padding, their values for every style, the box, the written file.",
  "B: 2D/3D models, pads that are and are not multiples of the spacing, 1..3 ranks under a scheduler.",
  "tests look at areas")
r("C17", 3, "`Model.tla`: position of each node in the file for all axes and storage orders.",
  "A: all orders x byte orders x types on small grids with distinct values; SEG-Y and binary; written files read back.",
  "one file of each kind is read")
r("C18", 5, "`Complexes.tla` enumerates simplicial complexes (one cell added after the other); `Topology.tla` defines edges, facets, boundary entities, incidences and boundary loops.",
  "A: all complexes of the bounds replayed into the queries; B: random meshes with holes and several components.",
  "one small mesh")
r("C19", 5, "`CleanUp.tla`: positions, cells and map of a cleaned mesh; idempotent; independent of the order of vertices and cells.",
  "B: random small lattice meshes with duplicates, unused vertices, -0, tolerances.",
  "no test has duplicates")
r("C20", 110, "`Sliver.tla`: the loop (list, judge, perturb, give up) with liveness; `SliverTrace.tla`: recorded iterations are behaviours of it: only vertices of slivers move, by bounded amounts, boundary stays, success iff no slivers. Result judged by `MeshCase.tla`.",
  "B: the vertices and angles of every iteration recorded at the extension-module boundary.",
  "minimal angle of three shapes")
r("C21", 50, "`Loop.tla`: the iterations on R ranks (explored by TLC with liveness); `Calls.tla`: which calls are accepted, how many triangulations and moves they make; a run with limit n is a prefix of a run with limit m > n.",
  "B: classes of argument values alone, in pairs, random combinations; points of all iterations compared between limits.",
  "tests use valid options")
r("C22", 10, "`Smooth.tla`: the averaging sweeps in fixed-point arithmetic, their stop rule, boundary and fixed points stay.",
  "B: random triangulations with holes.",
  "one mesh, minimal quality")
r("C23", 6, "`Repair.tla`: exact containment and qualities; which cells have to be deleted.",
  "B: lattice meshes with planted overlaps, flat and poor cells, thresholds around their qualities.",
  "one mesh, minimal quality")
r("C24", 5, "`Measures.tla`: volumes, centroids, qualities, radius-edge ratios, dihedral angles, gradients, determinants, containment in integer arithmetic.",
  "A: all triangles of the 3x3 and tetrahedra of the 2x2x2 lattice in all labellings, random ones beyond.",
  "one or two simplices")
r("C25", 10, "`SameMesh.tla`: the cells as sets of positions are equal.",
  "B: user-supplied points meshed on 1 and on 2..5 ranks.",
  "no comparison of parallel and serial")
r("C26", 25, "`Step.tla`: one iteration as a transition relation: which cells are in the domain, the bars, the mean scale, the forces, the projection onto the boundary, fixed and corner points, subdomain levels, the part that a rank owns.",
  "B: points and cells at the triangulation boundary of consecutive iterations, serial and on 2-3 ranks; every pair of states has to be a step.",
  "only final meshes are looked at")
r("C27", 35, "`Sizes.tla`: mean, spread and tails of edge length / desired length, independence of the place, mean quality and share of poor cells.",
  "B: recorded meshes for uniform sizes and size functions of several forms.",
  "tests count vertices")
r("C28", 15, "`Start.tla`: the staggered lattice of the (padded) box, the level set on it, thinning by the power of the desired size, fixed points, dependence on the seed.",
  "B: points of the first triangulation of recorded runs.",
  "final meshes at one seed")
r("C29", 55, "`Pipeline.tla`: desired length at every edge from the velocities (wavelength, limits, multilinear, continued into the extension), box and area of the mesh; then the verdict of `Sizes.tla`.",
  "B: meshes recorded from velocity data through get_sizing_function_from_segy and generate_mesh, serial and on 2 ranks.",
  "numbers of vertices of a few models")
json.dump(R, open('/verif/tools/design_rows.json', 'w'), indent=1)

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
MG="SeismicMesh/generation/mesh_generator.py"; MI="SeismicMesh/migration/migration.py"; CU="SeismicMesh/migration/cpp/cpputils.cpp"
GU="SeismicMesh/geometry/utils.py"; SD="SeismicMesh/geometry/signed_distance_functions.py"; FG="SeismicMesh/geometry/cpp/fast_geometry.cpp"
SZ="SeismicMesh/sizing/mesh_size_function.py"; HJ="SeismicMesh/sizing/cpp/FastHJ.cpp"; BL="SeismicMesh/decomp/blocker.py"
UT="SeismicMesh/generation/utils.py"; D2="SeismicMesh/generation/cpp/delaunay_class.cpp"; D3="SeismicMesh/generation/cpp/delaunay_class3.cpp"; DE="SeismicMesh/generation/cpp/delaunay.cpp"
p("C01","Parallel meshing ends on every rank under every message schedule",
 "A parallel mesh generation ends on every rank, for any number of ranks, any decomposition axis, and any relative speed of the ranks and buffering of the messages: no rank waits forever and no message is left unreceived. Either every rank returns, or every rank stops with an error (for example because one rank has nothing to mesh).",
 ["schedules","configurations"],"all interleavings of the ranks and all buffering/rendezvous choices of the sends; 2..5 ranks, 2D/3D, all axes, generated and user-supplied points, valid and failing starts",
 "the parallel tests run serially or with 2 ranks, each under the one schedule that a machine happens to give, always with buffered messages and never with a failing rank",
 [MI,MG],[("exchange","migration.exchange"),("aggregate","migration.aggregate"),("consensus on failures","mesh_generator._check_all_ranks_have_points")],["calls on the communicator passed by the user"])
p("C02","Ghost exchange delivers exactly the exports and conserves owned vertices",
 "In every iteration of a parallel mesh generation each block receives exactly the vertices that its two adjacent blocks export to it: none is lost, duplicated, altered or sent to another block, also when there is nothing to export. After the iteration a block goes on with all of its own vertices and none of the received ones.",
 ["histories","configurations"],"every iteration of every run; 2..5 ranks, 2D/3D, all axes; all export tables, including empty ones and those that list a vertex for both sides",
 "tests look only at the final volume or vertex count of a few meshes, which a lost or duplicated vertex hardly changes",
 [MI,MG,CU],[("exchange","migration.exchange"),("export table layout","cpputils.where_to2/3"),("drop of the ghosts","mesh_generator.generate_mesh")],["messages on the communicator","points handed to the incremental Delaunay triangulations"])
p("C03","A vertex is exported iff a circumball of its cells meets the neighbour",
 "A block exports a vertex to an adjacent block exactly if the circumscribed ball of at least one of the cells around the vertex meets that neighbour's extent, and never to any other block; a vertex that is needed on both sides goes to both.",
 ["inputs","configurations"],"all triangulations of small lattice point sets and random point sets in 2D and 3D, all positions and widths of the neighbouring extents, first, inner and last rank",
 "no test calls this; a missing export appears only as a rare non-conforming cell between blocks of a parallel mesh",
 [MI,CU],[("enqueue","migration.enqueue"),("ball/box test","cpputils.where_to2/3")],["exports of enqueue delivered through exchange"])
p("C04","Gathering the blocks gives the union of the local meshes on rank 0",
 "When the local meshes are gathered, rank 0 obtains all cells of all blocks with the coordinates of their vertices unchanged and nothing else, in order of the ranks, and the other ranks obtain placeholders. Cells never refer to vertices of another block than their own.",
 ["inputs","configurations"],"all sizes of the local meshes including empty or single-cell ones and unused vertices; 1..5 ranks, 2D/3D",
 "tests only use two ranks and compare the total area of the result with a tolerance",
 [MI],[("aggregate","migration.aggregate")],["value returned on every rank"])
p("C05","Every initial point belongs to exactly one block, in order along the axis",
 "Points supplied by the user for a parallel run are divided so that every point is in exactly one block, the blocks are consecutive slices along the requested axis, and each block's extent is the bounding box of its points. The initial points that the ranks generate themselves are likewise disjoint slices in the order of the ranks that leave no gap wider than about two edge lengths; requests that cannot be fulfilled are refused.",
 ["inputs","configurations"],"all small integer point clouds and random ones, 1..5 blocks, all axes, 2D/3D, points on block limits, empty slices",
 "tests never look at the blocks and use one axis and two ranks",
 [BL,UT,MG],[("blocker","decomp.blocker"),("slices of the bounding box","utils.make_init_points")],["value of decomp.blocker","points handed to the Delaunay triangulation by every rank"])
p("C06","Every rank's local mesh size function agrees with the global one",
 "The mesh size that a rank uses in parallel equals the global mesh size function at the grid nodes of its own slab, up to multilinear interpolation between them, for every rank, axis and bounding box, so that a size function that is multilinear in space is reproduced exactly in the whole slab and its surroundings.",
 ["inputs","configurations"],"1..5 ranks, 2D/3D, all axes, boxes with different lengths and offsets per axis, multilinear and arbitrary nodal size fields",
 "the only test of it meshes with a mild size field on two ranks and checks the area",
 [MI,MG],[("localize_sizing_function","migration.localize_sizing_function")],["value of the localized function on every rank"])
p("C07","Incremental triangulations stay Delaunay with consistent indices",
 "After any sequence of insertions, removals and moves the triangulation contains exactly the current points (coinciding points once), its cells are positively oriented, cover the convex hull without overlap, have no other point inside their circumball, and are listed with indices into the vertex list of the same state. Vertices inserted later are listed after the ones that were there, when nothing was removed or moved in between.",
 ["histories"],"all histories of insert/remove/move operations on small lattices (with their degenerate, cocircular positions) up to a bounded length, and long random ones, 2D and 3D",
 "tests insert one fixed point set; moves and removals are only reached through sliver removal and nothing checks the Delaunay property",
 [D2,D3,DE],[("insert/remove/move","DelaunayTriangulation"),("vertex numbering","get_finite_vertices")],["get_finite_vertices / get_finite_cells"])
p("C08","Generated meshes are valid: conforming, positively oriented, no orphans",
 "Every mesh returned by mesh generation, serial or parallel, refers only to existing vertices, uses every vertex, has no duplicate vertex or cell, is positively oriented (2D: positive area; 3D: non-negative volume up to round-off) and conforming: each edge (2D) or facet (3D) belongs to at most two cells, which lie on opposite sides of it. After five iterations or more no two cells overlap.",
 ["configurations","schedules"],"domains (primitives, boolean combinations, callables), sizes, options (max_iter, seeds, checks), 1..5 ranks with blocks wider than the overlap by some edge lengths; in 3D meshes that have left the degenerate initial lattice (3 iterations or more, in parallel 5, with perform_checks 10)",
 "tests compare total area and the number of vertices for about ten configurations; overlapping, flipped or orphaned cells are not seen",
 [MG,GU,MI],[("termination","mesh_generator._termination"),("clean up","utils.fix_mesh")],["value of generate_mesh"])
p("C09","The mesh conforms to the domain",
 "After ten or more iterations, vertices of a mesh generated in serial or in parallel lie in the domain and its boundary vertices on the domain's boundary, up to a small fraction of the edge length in 2D and on average in 3D; no cell has its centroid outside of the domain, the whole domain deeper than one edge length is covered, and the cells of a box fill it up to a small fraction. Interfaces of subdomains are followed by edges of the mesh.",
 ["inputs","configurations"],"smooth, polygonal, concave and multiply connected domains in 2D and 3D, combined and moved shapes, sizes, size functions defined in larger boxes, thresholds, subdomain interfaces",
 "tests compare only total areas at a few resolutions with tolerances of per cents",
 [MG],[("projection","mesh_generator._project_points_back_newton, _improve_level_set_newton"),("removal","mesh_generator._remove_triangles_outside")],["value of generate_mesh"])
p("C10","Fixed points and domain corners are vertices of the mesh",
 "In serial mesh generation from generated initial points with the default threshold, every fixed point that the user gives deep inside (two edge lengths) or on the boundary of the domain, 1.5 edge lengths apart, is a vertex of the resulting mesh at the given position after eight or more iterations, and so are the corners of rectangles (and of cubes with uniform size) after any number of iterations. Corners of constituents that do not lie on the boundary of a combined domain are not constrained.",
 ["inputs","configurations"],"interior and boundary fixed points in 2D and 3D, numbers of iterations, with and without the final smoothing, combined and moved shapes, subdomains, size functions defined in larger boxes",
 "one test with points along one edge of a 3D cube",
 [MG,GU],[("zero force at fixed points","mesh_generator.generate_mesh"),("pinned smoothing","utils.laplacian2_fixed_point")],["value of generate_mesh"])
p("C11","Results depend on the arguments only, and arguments are not modified",
 "Repeating a call with equal arguments gives the identical mesh or size function, regardless of previous calls, of the state of global random generators, of verbosity, and (in parallel) of the timing of messages. No call modifies the arrays, options or objects that the user passed in.",
 ["histories","schedules","configurations"],"sequences of public calls in any order and repetition, all verbosity levels, perturbed random state, message schedules",
 "tests call each function once in a fresh process and never compare two runs or look at their inputs afterwards",
 [MG,SZ,GU,SD],[("seeding","mesh_generator._generate_initial_points")],["returned values and arguments after the call"])
p("C12","Boolean combinations of domains obey set algebra",
 "A point is inside a union, intersection or difference exactly if set algebra on the constituents says so, for any number of constituents and any nesting; the order of the constituents does not matter except for the first one of a difference. A positive smoothness only adds material to unions and removes it from intersections and differences, by a bounded amount near where two boundaries meet, and a periodic repetition is inside exactly where the image of the point in the fundamental cell is inside its constituent, within the box.",
 ["inputs","programs"],"all expression trees over a few shapes up to a bounded depth, evaluated on lattices of points including boundary points, 2D and 3D, all smoothness values of a small set",
 "three tests mesh one smooth union, intersection and difference each of two shapes",
 [SD],[("combinators","Union/Intersection/Difference/Repeat.eval")],["eval"])
p("C13","Primitive shapes and their moved copies are what they claim to be",
 "The signed function of every primitive is negative inside, zero on the boundary and positive outside of the documented shape; after stretching, rotating and translating it is the original evaluated at the point moved back. The bounding box of every shape, moved or combined without smoothness, contains the whole shape, and the corners it reports are the true, moved corners.",
 ["inputs"],"all primitives with lattice parameters, quarter-turn and Pythagorean rotations about all axes in combination with axis stretches and translations, evaluated on lattices of points",
 "two tests rotate and stretch a rectangle and a cube and look at the mesh area",
 [SD,FG],[("manipulations","_configure_manipulations, _manipulate"),("rectangle and block","drectangle_fast, dblock_fast")],["eval, bbox, corners"])
p("C14","Gradation limiting gives the largest field below the input with bounded slope",
 "The limited field is nowhere larger than the input, nowhere differs by more than the rate times the grid spacing between grid neighbours, and is the largest such field (each value is the minimum over all nodes of their input value plus the rate times the grid distance), up to the numerical tolerance; limiting a limited field changes nothing.",
 ["inputs"],"all fields over a small set of values on all small grids (lines, rectangles, boxes, single cells), random large ones, all rates",
 "tests only check that meshes generated with gradation have the expected number of vertices",
 [HJ,SZ],[("limgrad","FastHJ.cpp:c_limgrad"),("call","mesh_size_function._enforce_gradation_sizing")],["_FastHJ.limgrad","SizeFunction.eval at the grid nodes"])
p("C15","Mesh sizes follow the wavelength, clipping, time-step and gradation rules",
 "At every grid node the mesh size is the smaller one of velocity/(frequency*cells per wavelength) and the gradient-based size, clipped to the minimum and maximum size, then enlarged where the requested time step would exceed the Courant number and finally limited to the requested gradation along every axis; rules that are not requested have no effect. Velocities in km/s or ft/s are converted to m/s, water values are replaced by the water velocity wherever they occur, and invalid requests are refused.",
 ["inputs","configurations"],"velocity grids in 2D and 3D with all combinations of options, units, anisotropic grid spacing, zero velocities in any row or column",
 "tests use three velocity models and check only the number of vertices of the mesh",
 [SZ],[("pipeline","get_sizing_function_from_segy")],["SizeFunction.eval, bbox, hmin"])
p("C16","A domain extension pads the model at the bottom and the sides only",
 "With a domain extension the bounding box grows by its width at the bottom and on all lateral sides and keeps its top, the original size field is kept inside, and the added cells hold the edge value, the maximum or a linear ramp to the maximum, as requested; unknown styles and negative widths are refused. Serial and parallel calls agree on the box.",
 ["inputs","configurations"],"2D and 3D models, pads that are and are not multiples of the grid spacing, the three styles, written velocity files",
 "tests check only the area of a few padded meshes",
 [SZ],[("padding","_build_domain_pad, _pad_it")],["SizeFunction.bbox and eval","written file"])
p("C17","Velocity models are read and written without permuting or altering values",
 "Reading a binary or SEG-Y velocity model gives at (z,x,y), with z upwards, exactly the value stored for that position, for every axes order, storage order, byte order and data type, and refuses calls that lack the dimensions or the byte order. Writing stores the same array, unit and shape.",
 ["inputs","configurations"],"all axes orders x storage orders x byte orders x types on grids with distinct lengths per axis and a distinct value per node; SEG-Y files with any number of traces and samples",
 "one binary file with one order and one SEG-Y file are read, and only mesh sizes derived from them are looked at",
 [SZ],[("readers","_read_bin, _read_segy"),("writer","write_velocity_model")],["read_velocity_model, write_velocity_model"])
p("C18","Topology queries agree with the definition on every mesh",
 "Edges, facets, boundary edges, boundary facets, boundary vertices, boundary entities, the entities around each vertex and the unique edges of a mesh are exactly those that the definition gives, for every connectivity (holes, several components, unused vertices); the wound boundary visits every boundary edge once with consecutive edges of a loop sharing a vertex.",
 ["inputs"],"all small 2D and 3D simplicial complexes enumerated by the specification, and meshes with holes and several components",
 "one small mesh is queried in the tests",
 [GU,FG],[("queries","geometry.get_* , vertex_to_entities, unique_edges")],["geometry.get_edges ... vertex_to_entities"])
p("C19","Mesh clean-up keeps the geometry, removes duplicates and is idempotent",
 "Cleaning up a mesh merges exactly the vertices that coincide up to the tolerance, drops exactly the repeated cells and (if asked) the unused vertices, and orients all cells positively, so that the set of cells as sets of positions is unchanged. Applying it again changes nothing, and the result as a set of positioned cells does not depend on the order in which vertices and cells were listed.",
 ["inputs"],"all small meshes with duplicated vertices and cells, unused vertices, every vertex order, coordinates at zero with either sign, 2D and 3D",
 "tests never call it with duplicates and look only at sizes",
 [GU],[("fix_mesh","utils.fix_mesh"),("unique rows","utils.unique_rows")],["geometry.fix_mesh, geometry.unique_rows"])
p("C20","Sliver removal ends with bounded angles or reports failure, keeping a valid mesh",
 "Sliver removal ends after at most the requested number of iterations; it reports success exactly if every dihedral angle of the mesh it returns is within the requested bounds, and otherwise reports that the limit was reached. Either way the result is a valid 3D mesh of the same domain, it has no more vertices than it was given, a mesh without slivers is returned unmoved, and only vertices of slivers are moved.",
 ["histories","configurations"],"3D meshes of several shapes, bounds, numbers of iterations from 1 on, already good input, meshes with planted slivers, sizes as numbers, callables and size functions of larger boxes",
 "tests check that the minimum angle is above the default bound on three shapes",
 [MG,FG,D3],[("perturbation loop","mesh_generator.sliver_removal")],["value and messages of sliver_removal"])
p("C21","Options are validated and the number of iterations is exactly the one requested",
 "Mesh generation with a limit of n iterations moves the points exactly n-1 times and triangulates n times, on every rank. Unknown options, non-positive sizes or iteration limits, negative verbosity, integer bounding boxes and arguments of a wrong kind are refused with an error before anything is meshed; valid ones are accepted.",
 ["configurations","histories"],"all single and paired option values from valid and invalid classes, iteration limits 1..8, serial and parallel",
 "tests only use valid options and never count iterations",
 [MG],[("option parsing","_parse_kwargs, _unpack_*"),("loop","generate_mesh")],["exceptions, calls of the user's size function"])
p("C22","Laplacian smoothing keeps boundary and topology and averages the interior",
 "Smoothing a 2D mesh leaves its connectivity, its boundary vertices and the fixed points where they are, and puts every other vertex at the average of its neighbours (exactly for the direct method up to the solver's tolerance; the iterative one repeats averaging steps until no edge grows by more than the tolerance, or up to the given number).",
 ["inputs"],"all small triangulations with interior vertices enumerated by the specification and larger random ones, with and without fixed points",
 "one test runs it on one mesh and looks at the minimum quality",
 [GU],[("laplacian2, laplacian2_fixed_point","utils")],["geometry.laplacian2, geometry.laplacian2_fixed_point"])
p("C23","Mesh repair deletes exactly the poor boundary cells and the overlapping ones",
 "Deleting poor boundary entities removes exactly the cells that touch the boundary and have a quality below the threshold, and keeps the geometry of all others. Overlap detection reports exactly the pairs of cells sharing a vertex where the centroid of one lies in the other, and the linter deletes the worse one of each pair and returns a mesh without overlaps.",
 ["inputs"],"small lattice meshes with poor boundary and interior cells, all thresholds around their qualities, planted overlapping cells, unused vertices; 2D and 3D",
 "one test checks a minimum quality of one mesh",
 [GU],[("delete_boundary_entities, do_any_overlap, linter","utils")],["geometry.delete_boundary_entities, do_any_overlap, linter"])
p("C24","Geometric measures equal their exact values and do not depend on labelling",
 "Signed volumes, centroids, qualities, radius-edge ratios, dihedral angles, gradients of volume and circumradius, determinants and point-in-cell tests equal the exact value for every simplex, flat ones included where the value exists, follow the sign of the orientation where they are signed, and are unchanged when the vertices of a cell are relabelled or the mesh is translated.",
 ["inputs"],"all simplices on small integer lattices in 2D and 3D, all vertex permutations, points inside, outside and at the centroid",
 "tests evaluate a few of them on one or two simplices",
 [GU,FG,DE],[("measures","simp_vol, simp_qual, calc_re_ratios, calc_dihedral_angles, calc_*determinant, vertex_in_entity3")],["geometry.*"])
p("C25","Parallel triangulation equals the serial one",
 "For the same vertices, blocks wider than the overlap and points in general position, the cells that the blocks obtain from their own and the received vertices, put together, are exactly the Delaunay cells of all vertices, for every number of ranks and every axis.",
 ["inputs","configurations","histories"],"random and jittered point sets in 2D and 3D, 2..5 ranks, all axes, one and several iterations",
 "no test compares a parallel triangulation with a serial one",
 [MI,MG,CU,GU],[("ghost export","migration.enqueue"),("removal of external cells","utils.remove_external_entities")],["generate_mesh with given points and one iteration, in parallel and in serial"])
p("C26","Every iteration is one step of the balance of forces",
 "In every iteration each point moves by delta_t times the sum of the forces of the edges of the domain's cells that end in it: an edge shorter than its desired length (the size function at its middle, scaled by one common factor so that edges are a fixed fraction too short on average) pushes its ends apart along itself by the difference, and a longer one does nothing; fixed points do not move. A point that leaves the domain is brought back onto its boundary, points next to the interface of a subdomain onto that interface, and in parallel every rank moves exactly its own points, within its block.",
 ["inputs","configurations","histories"],"boxes, balls and their combinations in 2D and 3D, uniform and varying sizes, step widths, thresholds, fixed points, subdomains, all iterations of a run, 1..3 ranks",
 "tests look only at the final mesh, at its number of vertices or its total area, which most wrong steps leave within the tolerances",
 [MG],[("forces","mesh_generator._compute_forces, generate_mesh"),("projection","mesh_generator._project_points_back_newton"),("ghosts","mesh_generator.generate_mesh")],["points handed to the triangulation in consecutive iterations"])
p("C27","The sizes and shapes of the cells follow the size function",
 "After 25 or more iterations with the default step and threshold, the edges of a serial mesh have, on average over the mesh, the desired length up to a fixed factor, spread little around it (few edges much shorter or longer than desired), wherever in the domain and however the size varies, and 2D cells are of high quality.",
 ["inputs","configurations"],"domains in 2D and 3D, uniform sizes and size functions of several forms and gradients, scales, with and without r0m_is_h0, seeds",
 "tests count vertices for a few meshes and do not relate any edge to the size function",
 [MG],[("initial points","mesh_generator._generate_initial_points"),("forces","mesh_generator._compute_forces")],["value of generate_mesh"])
p("C28","The mesh starts from a lattice thinned out by the size function",
 "The initial points of a generated mesh are points of a staggered lattice of the minimal size that lie in the domain (up to the boundary tolerance), all of them for a uniform size, each kept with the probability that the desired size at it implies (minimal size over size, to the power of the dimension), where those close to a fixed point give way to it. The choice depends on the seed only: the same options give the same points, another seed gives others. All this holds as well when the size function is defined in a larger box than the domain, and points that the user passes are used as they are.",
 ["inputs","configurations"],"domains in 2D and 3D, boxes, minimal sizes, uniform and varying size functions, padded boxes, fixed points, seeds, user points",
 "tests look at final meshes at one seed, where a start that is too dense, too coarse or skewed is evened out or hidden in tolerances",
 [MG],[("initial points","mesh_generator._generate_initial_points; utils.create_staggered_grid")],["points of the first triangulation"])
p("C29","Meshes of velocity models resolve the wavelengths in the model and its extension",
 "The mesh of the rectangle or cube of a velocity model, generated in serial or in parallel with the size function that is made from the model, covers the model and its extension and nothing else. After 25 or more iterations its edges have, on average over the mesh and up to a fixed factor, the length that the velocity at their place asks for (the wavelength divided by the number of cells, within the minimal and maximal sizes, continued from the sides into the extension), relative to where that is least or, with `r0m_is_h0`, to the minimal size, and few deviate strongly from it. The units in which the velocities are given make no difference.",
 ["inputs","configurations"],"velocity models in 2D and 3D that vary along all axes, units, frequencies, cells per wavelength, limits, extensions, ranks, seeds",
 "tests compare the numbers of vertices and cells of two or three models; no edge is related to the velocity where it is",
 [SZ,MG],[("sizes of a model","mesh_size_function.get_sizing_function_from_segy"),("meshing","mesh_generator.generate_mesh")],["value of generate_mesh with the result of get_sizing_function_from_segy"])
import sys
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc); assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))

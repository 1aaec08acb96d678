# Further properties; run by meta.py.
U = "lib/utilities/include/utilities/"
prop("C11", "Polygon, triangle and region measures and predicates are exact",
     "For every simple polygon, in either orientation, given directly, by indices into a longer list of points, as a region or as a triangle: area, signed area, centroid, diameter (the longest distance between two vertices), average, orientation and convexity are the ones of the polygon, whenever they are asked, in whatever order, again, on copies, and after fixCCW or mutate. A point is reported as contained exactly when it is inside or on the boundary, and as being on an edge exactly when it is on the boundary; sides, vertices, equality (independent of the first vertex listed) and bounding boxes match. The circumcentre of a triangle is equidistant from its vertices.",
     ["inputs", "histories"], "all simple polygons (convex, reflex, with collinear vertices, translated, tiny and large), all query points further than the tolerance from the boundary or on it, all orders of queries",
     "Membership and measures must hold for every polygon and point; cached values make the answer depend on what was asked before, and tests query a handful of points of a handful of polygons once.",
     [S + "models/polygon/Polygon.cpp", S + "models/polygon/Triangle.cpp", S + "models/polygon/BoundingBox.cpp", S + "models/Region.cpp", S + "utilities/geometryFunctions.cpp"],
     [("lazy caches of diameter, area and centroid", S + "models/polygon/Polygon.cpp: getDiameter, getArea, getCentroid, mutate"), ("ray casting", S + "models/polygon/Polygon.cpp: containsPoint"), ("convexity scan", S + "models/polygon/Polygon.cpp: isConvex"), ("circumcentre", S + "models/polygon/Triangle.cpp: calculateCircumcenter")],
     technique="runtime monitoring: long double reference geometry compared with every answer of generated polygons and query histories",
     note="Every measure of every generated polygon; 30 query points each, aimed at vertices and edges. Points within the comparison tolerance of the boundary, and convexity of corners within 1e-9 of straight, are not judged.")
prop("C12", "Segment and point operations are geometrically right",
     "For all segments at least some tolerances long, given by indices or by points: crossing segments are reported to intersect, with a point lying on both, and segments further apart than the tolerance, parallel ones included, are not; a point of the segment is contained and one further away than the tolerance is not; a part of a segment is contained in it and not the other way round; length, middle point, angle, orientation of a third point and collinearity are right. Points closer than the tolerance in both coordinates are equal and none is less than the other; otherwise they are ordered by x, then y. A point is empty until it is given coordinates (also as the intersection handed out), and only until then.",
     ["inputs"], "all pairs of segments (crossing, touching, parallel, sharing ends, lattice coordinates) and all query points, at sizes from 1 to 1000",
     "The predicates are quotients compared with tolerances: which branch decides depends on the particular coordinates, and tests use a few axis-parallel examples.",
     [S + "models/basic/IndexSegment.cpp", S + "models/basic/PointSegment.cpp", S + "models/basic/Segment.cpp", I + "models/basic/Segment.h", S + "models/basic/Point.cpp", S + "utilities/delynoi_utilities.cpp", S + "utilities/geometryFunctions.cpp"],
     [("intersection by parameters", S + "utilities/geometryFunctions.cpp: intersects"), ("containment", I + "models/basic/Segment.h: contains"), ("comparison with tolerance", S + "models/basic/Point.cpp: operator<, operator==")],
     technique="runtime monitoring: long double reference predicates compared on generated segments and points",
     note="Collinear overlapping segments and gaps below the tolerance times the lengths are not judged.")
prop("C13", "Triangulations of a polygon cover it exactly, with its own vertices",
     "For every simple polygon with n vertices, in either orientation, ear clipping and the Delaunay triangulation of a polygon each give n-2 triangles whose vertices are indices of the polygon in the caller's list of points, that do not overlap and cover the polygon; the Delaunay one is constrained Delaunay. Triangulating from the centre gives n triangles around the average of the vertices, appended to the list of points, for a convex polygon, and rejects a non-convex one. The polygon and the points given are not changed.",
     ["inputs"], "all simple polygons (up to 40 vertices, collinear vertices included), in both orientations, with vertices at arbitrary places of a longer list of points",
     "Whether an ear is cut correctly depends on every other vertex of the polygon; tests triangulate a few small fixed shapes and compare one possible answer.",
     [S + "triangulation/EarTriangulationGenerator.cpp", S + "triangulation/DelaunayTriangulationGenerator.cpp", S + "triangulation/CenterTriangulationGenerator.cpp", S + "models/polygon/Polygon.cpp"],
     [("ear test", S + "triangulation/EarTriangulationGenerator.cpp: triangulate, isEar"), ("index mapping back to the caller's list", S + "triangulation/DelaunayTriangulationGenerator.cpp: triangulate"), ("convexity test of the centre triangulation", S + "triangulation/CenterTriangulationGenerator.cpp")],
     technique="runtime monitoring: tiling oracle (count, orientation, edge uses, area, membership) over generated polygons",
     note="Triangles whose area is rounding noise (vertices in line) are only required not to lie on an exact axis-parallel line.")
prop("C14", "UniqueList is a set that remembers insertion order and indices",
     "After any sequence of additions (single, lists, other UniqueLists), deletions, removals of the first element, clearings, copies and assignments, a UniqueList holds the distinct elements in insertion order; adding returns the position of the element, its old position when an equal one is there; indexOf and contains agree with the positions; element, size and list accessors, equality and hasCommonElement agree with the contents; and a copy is independent of the original.",
     ["histories"], "all histories of operations on several lists of integers, reals and points (points equal up to the tolerance, which is configurable)",
     "The list keeps a vector and a map of positions that have to agree after every operation of any history; tests run one or two operations.",
     [U + "UniqueList.h", S + "models/basic/Point.cpp"],
     [("map of positions and vector of elements", "UniqueList.h: push_back, delete_element, pop_front"), ("order with tolerance", S + "models/basic/Point.cpp: operator<")],
     technique="runtime monitoring: reference model compared after every operation of random histories",
     note="Up to 60 operations (120 in thorough) on up to 3 lists; every element is looked up after every operation. Points are equal or clearly apart.")
prop("C15", "Neighbourhood maps return what was inserted, for either direction",
     "After any sequence of insertions, assignments and changes, a SegmentMap returns for a segment, whichever end is named first, the first and the last element inserted for it or the pair assigned to it, and -1 for a missing one; containsSegment, size and the entries match; equal segments have equal hashes. A PointMap returns for a point (up to the tolerance) every element inserted, in order. Neighbour pairs, edge data, keys and pairs compare as unordered or ordered pairs as documented.",
     ["histories"], "all histories of insertions and lookups with small, large, power-of-two and negative indices, and points equal up to the tolerance",
     "Lookups depend on hashes of indices and on comparisons with tolerance; a collision or asymmetry shows only for particular indices.",
     [S + "models/neighbourhood/SegmentMap.cpp", S + "models/neighbourhood/PointMap.cpp", S + "models/neighbourhood/NeighboursBySegment.cpp", S + "models/neighbourhood/NeighboursByPoint.cpp", S + "models/neighbourhood/EdgeData.cpp", S + "models/basic/IndexSegment.cpp", U + "Pair.h", "lib/utilities/src/utilities.cpp"],
     [("hash of segments", S + "models/basic/IndexSegment.cpp"), ("first and second neighbour", S + "models/neighbourhood/SegmentMap.cpp: insert")],
     technique="runtime monitoring: reference maps compared during random histories",
     note="Up to 120 operations (400 in thorough) per history.")
prop("C22", "Convex hull chains enclose all points and calipers find the diameter",
     "For every list of at least two different points, the upper and lower chains of convexHull go from the leftmost to the rightmost point through points of the list and leave no point of the list outside; the pairs that rotatingCalipers returns are made of points of the list and include the two that are furthest apart.",
     ["inputs"], "all point sets: random, lattices with repeated points, cocircular, collinear (horizontal, vertical), flat ellipses, columns with equal x",
     "The scan compares turns of consecutive points: ties and repeated points take particular branches.",
     [S + "utilities/convexHull.cpp"],
     [("monotone chain", S + "utilities/convexHull.cpp: convexHull"), ("antipodal pairs", S + "utilities/convexHull.cpp: rotatingCalipers")],
     technique="runtime monitoring: brute-force hull and diameter oracle over generated point sets",
     note="Every point against every hull edge; all pairs for the diameter.")
prop("C07", "Results depend only on the input, not on earlier calls",
     "Asking the same or another generator again, in any order and for any kind of mesh, gives the same mesh as asking a fresh one; meshes handed out earlier do not change; the seed list, the region and the segments given are not changed. Seeds that repeat another one, exactly or within the tolerance, change nothing. Copies of regions, meshes, polygons, lists and holes are equal to the original and independent of later changes to it.",
     ["histories", "inputs"], "all interleavings of requests to several generators over the same or different scenes, with other library calls in between, and all heap contents (memory is filled with different patterns)",
     "Generators keep their working state in members and Triangle in global variables; a leftover shows only when requests are repeated or interleaved, which tests never do.",
     [S + "voronoi/TriangleDelaunayGenerator.cpp", I + "voronoi/TriangleDelaunayGenerator.h", S + "voronoi/TriangleVoronoiGenerator.cpp", S + "voronoi/DelaunayToVoronoi.cpp", I + "voronoi/lib/triangle.c", S + "models/Region.cpp"],
     [("members filled by every call", S + "voronoi/TriangleDelaunayGenerator.cpp: callTriangle"), ("global state of Triangle", I + "voronoi/lib/triangle.c: triangulate"), ("copying of regions", S + "models/Region.cpp")],
     technique="runtime monitoring: fingerprints of whole meshes compared across request histories and heap fill patterns",
     note="Fingerprints cover every coordinate bit, flag, polygon and map entry.")
prop("C08", "Adding a hole removes exactly that area from the region",
     "Adding a hole that lies inside a region keeps the outline and adds the hole with its points and centre; adding one that cuts the outline replaces the outline by the difference (area, membership, corners, orientation, bounding box) up to the rounding of the configured scale; adding one outside changes nothing; adding one that would split or cover the region throws std::invalid_argument and leaves the region as it was. The points and segments listed afterwards are the outline and then every hole, each closed. A hole contains exactly its own area and boundary.",
     ["inputs", "histories"], "all simple regions in either orientation and all sequences of circular and polygonal holes in either orientation in general position, at sizes 1 to 30000 and scales 1e3 to 1e7",
     "The cut is a polygon clipping on integers whose sweep depends on every coordinate; tests cut two fixed squares.",
     [S + "models/Region.cpp", S + "models/hole/Hole.cpp", S + "models/hole/PolygonalHole.cpp", S + "models/hole/CircularHole.cpp", S + "models/hole/clipper/ClipperWrapper.cpp", S + "models/hole/clipper/lib/clipper.cpp"],
     [("inside, cut, split or cover", S + "models/Region.cpp: addHole"), ("difference on scaled integers", S + "models/hole/clipper/ClipperWrapper.cpp"), ("sweep", S + "models/hole/clipper/lib/clipper.cpp")],
     technique="runtime monitoring: set-difference oracle (membership, area, corners) over generated hole histories",
     note="25 membership samples, all corners and the exact area per cut. Pairs closer than 4e-3 of the size to touching are not judged.")
prop("C09", "A region keeps exactly the seeds that lie in it",
     "After any sequence of adding seed lists, seed files and generation rules, cleaning and copying, a region holds, in the order given, exactly those seeds that lie inside or on its outline and neither inside nor on the boundary of one of its holes; the list given is not changed. A seed file that does not exist throws std::runtime_error and changes nothing.",
     ["inputs", "histories"], "all regions with holes and all histories of seed operations, with seeds inside, outside, in holes, on vertices and on axis-parallel sides",
     "Which seeds are kept depends on each point's position relative to outline and holes, and on what was added before.",
     [S + "models/Region.cpp", S + "models/hole/Hole.cpp", S + "models/polygon/Polygon.cpp", S + "models/generator/PointGenerator.cpp"],
     [("filter", S + "models/Region.cpp: addSeedPoints, clean"), ("reading", S + "models/Region.cpp: addSeedsFromFile")],
     technique="runtime monitoring: reference list compared after every operation of random histories",
     note="Points within 1e-3 of the size from the boundary but not on it are not judged.")
prop("C10", "Generated seeds follow the grid and the given functions",
     "For every bounding box and counts nX and nY, generating seeds appends nX times nY points, row by row from the lower left corner, evenly spaced with both borders included (a single row or column lies on the lower border). The rule given for x, y or both is applied to each: constant, uniform, sine, cosine, displacement of every other point, alternating rows, random doubles and integers (in range, integers reaching every value), noise added to another rule (size in range, either sign), and user functors (once per point, in order). Every value is finite.",
     ["inputs"], "all boxes, counts including one, parameters of all rules, and which coordinate is given",
     "The value of each point depends on its place in the whole grid and on state kept by the rule between points.",
     [S + "models/generator/PointGenerator.cpp", S + "models/generator/functions/functions.cpp", S + "models/generator/functions/RandomDouble.cpp", S + "models/generator/functions/RandomInteger.cpp", S + "models/generator/noise/noise.cpp", I + "models/generator/Functor.h", I + "models/generator/functions/functions.h"],
     [("grid", S + "models/generator/PointGenerator.cpp: generate"), ("rules", S + "models/generator/functions/functions.cpp"), ("noise", S + "models/generator/noise")],
     technique="runtime monitoring: every generated point compared with a reference evaluation of the rule",
     note="All points of grids of up to 24 by 24. displace_points may shift by delta or half of it (the documentation is unclear), always by the same amount.")
prop("C19", "Configuration settings take effect everywhere, and only as set",
     "There is one configuration; defaults are as documented, and each setting reads back as set and changes nothing else. From then on circles, circular holes and arcs have as many points as the discretization grade, evenly spaced on the circle; points and list elements are equal exactly when both coordinates differ by less than the tolerance; points are written with the configured number of decimals. Angles order directions independently of the side they are named from, and conversions between degrees and radians are right.",
     ["histories", "inputs"], "all sequences of settings: grades from 3 to 400, tolerances from 0.1 to 1e-12, scales, precisions 0 to 17",
     "A setting has to reach every place that depends on it for any value; tests use the defaults.",
     [S + "config/DelynoiConfig.cpp", S + "models/polygon/Circle.cpp", S + "models/hole/CircularHole.cpp", S + "utilities/delynoi_utilities.cpp", S + "models/basic/Point.cpp", S + "models/basic/Angle.cpp", "lib/utilities/src/utilities.cpp", U + "Precision.h"],
     [("settings", S + "config/DelynoiConfig.cpp"), ("discretization", S + "utilities/delynoi_utilities.cpp: generateArcPoints"), ("comparison", S + "models/basic/Point.cpp"), ("decimals", S + "models/basic/Point.cpp: getString")],
     technique="runtime monitoring: dependent behaviour compared with reference formulas after every change of settings",
     note="2-8 changes per case; all points of all circles compared.")
prop("C16", "Printed files hold the mesh exactly, with the configured precision",
     "Printing a mesh, to a file or a stream, writes the number of points and each point in order with the configured number of decimals, correctly rounded; the number of edges and each edge once; the number of elements and each element in order with its vertices. Regions write their outline, holes, seeds and segments; maps and small objects their entries. Every index is written in full. Nothing else is written, what the caller wrote to the stream stays, an existing file is replaced, and the object printed is not changed.",
     ["inputs", "histories"], "all meshes, regions, maps and objects, all precisions (0 to 14), indexes up to the largest int, file or stream with any format set by the caller",
     "Formats depend on the size of the numbers and on the state of stream and configuration; tests print one small mesh with the default precision and hardly look at the text.",
     [I + "models/Mesh.h", S + "models/Region.cpp", S + "models/basic/Point.cpp", S + "models/basic/IndexSegment.cpp", S + "models/polygon/Polygon.cpp", S + "models/neighbourhood/SegmentMap.cpp", S + "models/neighbourhood/PointMap.cpp", U + "Precision.h", "lib/utilities/src/utilities.cpp"],
     [("printing a mesh", I + "models/Mesh.h: printInFile, printInStream"), ("numbers", U + "Precision.h"), ("printing a region", S + "models/Region.cpp: printInFile")],
     technique="runtime monitoring: every line of the printed text compared with the object by a parser of its own",
     note="Every line of every file is compared.")
prop("C17", "A mesh read from a file is the mesh in the file",
     "Reading a mesh from a file or stream, with or without a list of edges and with any first index, gives the points (a point listed again counts once and indexes follow it), the elements with their vertices, and the neighbours by edge and by point, as in the file; several meshes can be read from one stream. A mesh printed and read is the same up to the printed precision, and printing it again gives the same text. A file that does not exist throws std::runtime_error and leaves the mesh as it was.",
     ["inputs"], "all valid mesh files: any numbers, separators, line ends, order of elements and edges, repeated points, first index from -5 to 100000",
     "Index translation and neighbours depend on the whole file; tests read one file.",
     [I + "models/Mesh.h", "lib/utilities/src/utilities.cpp", U + "UniqueList.h", S + "models/neighbourhood/SegmentMap.cpp", S + "models/neighbourhood/PointMap.cpp"],
     [("reading", I + "models/Mesh.h: createFromStream, createFromFile"), ("words of a line", "lib/utilities/src/utilities.cpp: splitBySpaces")],
     technique="runtime monitoring: meshes written by the monitor read back and compared in full; print-read-print round trips",
     note="Reading into a mesh that is not empty and malformed files are not judged.")
prop("C18", "No memory errors, undefined behaviour, exits or hangs on any input",
     "Whatever a user does with valid objects (any domains, holes, seeds, also seeds at the limit of the tolerance, thousands of them, any indexes, any order of copying, keeping and destroying objects), the library reads and writes only memory that is its own and initialised, does not rely on undefined behaviour, does not end the process, and returns in time or throws an exception.",
     ["inputs", "histories"], "all inputs of the other properties, degenerate seeds, large meshes, extreme integers, and all orders of copies and destructions",
     "Errors in memory show only for particular sizes and layouts, and mostly as nothing at all without instrumentation.",
     [I + "voronoi/lib/triangle.c", S + "models/hole/clipper/lib/clipper.cpp", S + "voronoi/TriangleDelaunayGenerator.cpp", S + "voronoi/DelaunayToVoronoi.cpp", S + "models/Region.cpp", I + "models/Mesh.h", S + "models/basic/IndexSegment.cpp", U + "UniqueList.h", "lib/utilities/src/utilities.cpp"],
     [("pools, predicates and global state", I + "voronoi/lib/triangle.c"), ("conversion between the library and Triangle", S + "voronoi/TriangleDelaunayGenerator.cpp: callTriangle"), ("maps shared by copies of a mesh", I + "models/Mesh.h")],
     technique="sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer, checked libstdc++ and valgrind memcheck over every workload of the other checks and hostile ones",
     note="All suites under the sanitizers, a sample of each under valgrind. Leaks, and concurrent use (nothing in the library promises it), are not judged.")
prop("C23", "Invalid input is rejected with an exception and changes nothing",
     "An outline that crosses itself is rejected with std::invalid_argument, however it is given, and a simple one never is; so are vertex lists that are no triangle, one function for both coordinates, and triangulating a polygon that is not convex from its centre; a file that does not exist throws std::runtime_error. The caller's lists, regions and meshes are then as they were.",
     ["inputs"], "all outlines (crossing by a margin, or simple, collinear vertices included), all vertex lists, all file names that are not there",
     "Whether two of many sides cross depends on the outline; tests try one or two.",
     [S + "models/polygon/Polygon.cpp", S + "models/Region.cpp", S + "utilities/delynoi_utilities.cpp", S + "models/generator/PointGenerator.cpp", S + "triangulation/CenterTriangulationGenerator.cpp", "lib/utilities/src/utilities.cpp", I + "models/Mesh.h"],
     [("self-intersection test", S + "models/polygon/Polygon.cpp: isSelfIntersecting, mutate"), ("integrity of triangles", S + "utilities/delynoi_utilities.cpp: checkTriangleIntegrity"), ("opening of files", "lib/utilities/src/utilities.cpp: openFile")],
     technique="runtime monitoring: reference crossing test and exception monitor over generated valid and invalid input",
     note="Crossings by less than 1e-3 of the size are not judged. Three constructors accept crossing outlines: known findings.")
prop("C20", "Clipping polygons gives exactly the points that belong to the result",
     "ClipperWrapper::polyIntersection gives polygons that cover exactly the points that are in both polygons, whatever their shape, orientation and number of common parts, on coordinates scaled by the given scale. The clipping library behind it covers exactly the points of the intersection, union, difference or exclusive or of the subject and clip polygons under the given fill rules, once each, as paths and as a tree of polygons and holes, with every option; of open lines it keeps exactly the parts outside or inside the polygons; growing and shrinking polygons, growing lines (with closed, joined, butt, square and round ends), sums and differences of outlines, simplifying and cleaning polygons (one or many, in place or not), bounds, and telling area, orientation and whether a point is inside are right too. Results are exact up to the rounding to integers.",
     ["inputs"], "all sets of polygons (simple, crossing themselves, sharing sides or vertices, nested), coordinates up to 2^62 (beyond it they are refused), all operations, fill rules and options",
     "A sweep whose every step depends on the order of all coordinates: tests intersect two squares.",
     [S + "models/hole/clipper/ClipperWrapper.cpp", S + "models/hole/clipper/lib/clipper.cpp", I + "models/hole/clipper/lib/clipper.hpp"],
     [("scaling and call", S + "models/hole/clipper/ClipperWrapper.cpp: polyIntersection"), ("sweep", S + "models/hole/clipper/lib/clipper.cpp: ExecuteInternal"), ("offsets", S + "models/hole/clipper/lib/clipper.cpp: ClipperOffset")],
     technique="runtime monitoring: winding-number oracle on generated sets of polygons",
     note="30-40 points per operation, aimed at corners and sides, not judged within 8 units of a side. The orientation of results is judged only where no sides coincide. Lines with exactly horizontal sides, that double back, or that touch a corner, and lines under the positive and negative fill rules are not judged (limits of the vendored Clipper, DESIGN section 3).")

prop("C21", "Triangle's triangulate() gives the meshes that its switches describe",
     "For points, triangulate() gives their Delaunay triangulation: every point a vertex (of equal points one), counter-clockwise triangles that tile the convex hull, no point inside a circumcircle; and the Voronoi diagram of circumcentres, edges and outward rays. For outlines with segments, holes and regions (-p) the triangles tile exactly the outline without its holes, every segment is made of edges, every other edge is Delaunay, and points are added only where asked for: -q makes every angle at least the one given (where the input has no small ones), -a no triangle larger than the area given for all, for its region or (refining, -r) for its triangle, -D every edge Delaunay, -u none that the user's test finds unsuitable, while -Y adds none on the boundary, -YY none on segments and -S no more than the number given. Points stay in place and in order; new ones have the interpolated attributes; markers, region attributes, subsegments, neighbours, edges, second-order nodes and counts describe the mesh that is given back; lists are numbered from 0 or 1, left out or included as asked; the input is not changed and the same call gives the same mesh again.",
     ["inputs", "configurations"], "all point sets and outlines, crossed with the switches z e n v j B c l i F X o2 p q a A D Y S s O P N E r u C",
     "Every mesh of the library comes from this function; which branches run depends on switches and on degenerate positions that tests never combine.",
     [I + "voronoi/lib/triangle.c", I + "voronoi/lib/triangle.h", S + "voronoi/TriangleDelaunayGenerator.cpp"],
     [("divide and conquer, sweep, incremental", I + "voronoi/lib/triangle.c: divconqdelaunay, sweeplinedelaunay, incrementaldelaunay"), ("segments and holes", I + "voronoi/lib/triangle.c: formskeleton, carveholes"), ("quality", I + "voronoi/lib/triangle.c: enforcequality"), ("output", I + "voronoi/lib/triangle.c: writenodes ... writevoronoi")],
     technique="runtime monitoring: mesh oracles (tiling, Delaunay, markers, angles, areas) over generated calls and switches",
     note="Angles are judged where all corners of the input that face the mesh are at least 60 degrees. Meshes left with triangles that are flat but for rounding are not refined again: Triangle may then put a vertex where there is one (finite precision, DESIGN section 3). Weighted triangulations (-w, -W; announced but not implemented by this Triangle) and files are not covered.")

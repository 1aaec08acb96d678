FLAVOURS = {
    "rel": dict(cxx="g++", cc="gcc", flags=["-O1", "-D_GLIBCXX_ASSERTIONS"]),
    "san": dict(cxx="g++", cc="gcc", flags=["-O1", "-g1", "-D_GLIBCXX_DEBUG", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,bounds-strict", "-fno-sanitize-recover=all"]),
}
CHECKS = {}
VOR, DEL = ["s_voronoi.cpp", "scene.cpp", "meshcheck.cpp"], ["s_delaunay.cpp", "dscene.cpp", "scene.cpp", "meshcheck.cpp"]
SCENES = ("Random scenes: domains of 12 kinds (convex, star, rectilinear, 2-opt, unicorn, comb, ...) with collinear and lattice vertices, either orientation, sizes from 1 to 5000, up to 110 vertices, "
          "translated, also cut by holes; 0-12 disjoint circular or polygonal holes; 0-1500 seeds (4000 in thorough; one scene in 5000 has up to 7000) in 9 layouts (random, grids, hexagonal, clusters, cocircular, collinear, none), some very close to each other or to the boundary, on it (exactly or up to rounding), or repeated. "
          "A case is non-trivial when the library produced a mesh and the whole oracle ran; distinct by the hash of its input coordinates.")


def rel(suite, quick, thorough, **kw):
    return dict(suite=suite, flavour="rel", quick=quick, thorough=thorough, floor=1, **kw)


def san(suite, quick, thorough, **kw):
    return dict(suite=suite, flavour="san", quick=quick, thorough=thorough, floor=1, **kw)


CHECKS["C01"] = dict(tus=VOR, runs=[rel("voronoi_tile", 120000, 3000000)], rule=SCENES)
CHECKS["C02"] = dict(tus=VOR, runs=[rel("voronoi_near", 120000, 3000000)], rule=SCENES)
CHECKS["C03"] = dict(tus=VOR, runs=[rel("voronoi_maps", 120000, 3000000)], rule=SCENES)
CHECKS["C04"] = dict(tus=DEL, runs=[rel("delaunay_constrained", 120000, 3000000)], rule=SCENES + " Half of the scenes have up to 40 restricted segments (sharing endpoints, crossing, through seeds, between domain and hole vertices) and some seeds outside the domain.")
CHECKS["C05"] = dict(tus=DEL, runs=[rel("delaunay_conforming", 120000, 3000000)], rule=SCENES)
CHECKS["C06"] = dict(tus=DEL, runs=[rel("delaunay_maps", 120000, 3000000)], rule=SCENES)

GEO, MOD = ["s_geometry.cpp"], ["s_models.cpp"]
POLYS = "Random simple polygons of 12 kinds, 3-150 vertices, both orientations, indices into a shuffled longer list, sizes 1e-6 to 1e6, translated. Non-trivial: the whole oracle ran; distinct by the hash of the coordinates."
CHECKS["C11"] = dict(tus=GEO, runs=[rel("polygon", 40000, 2000000), rel("triangle", 40000, 1000000), rel("boundingbox", 10000, 200000)], rule=POLYS)
CHECKS["C12"] = dict(tus=GEO, runs=[rel("segments", 200000, 5000000)], rule="Random pairs of segments (free, lattice, parallel, touching, sharing ends) with 12 query points each, down to a few tolerances away from the segment; axis-parallel and near-miss pairs. Distinct by the hash of the coordinates.")
CHECKS["C13"] = dict(tus=GEO, runs=[rel("triangulators", 100000, 3000000)], rule=POLYS)
CHECKS["C14"] = dict(tus=MOD, runs=[rel("uniquelist", 30000, 600000)], rule="Random histories of operations (with repetition on and off) on 1-3 lists of int, double or Point over a pool of up to 400 values. Distinct by the hash of the pool and the operations.")
CHECKS["C15"] = dict(tus=MOD, runs=[rel("segmentmap", 40000, 800000), rel("pointmap", 20000, 400000)], rule="Random histories of insertions and lookups. Distinct by the hash of the keys used.")
CHECKS["C22"] = dict(tus=GEO, runs=[rel("convexhull", 100000, 2000000)], rule="Random point sets of 7 kinds, 2-800 points, sizes 1e-3 to 1e6. Distinct by the hash of the coordinates.")

REG = ["s_region.cpp", "scene.cpp"]
CHECKS["C08"] = dict(tus=REG, runs=[rel("holes", 150000, 4000000)], rule="Random regions of 12 kinds (both orientations, sizes 1 to 30000, scales 1e3 to 1e7) and 1-40 circular or polygonal holes one after the other, in general position: inside, apart, cutting a corner or notch, splitting, covering. Pairs whose relation is decided by less than the rounding are skipped and counted. Distinct by the hash of the coordinates.")
CHECKS["C09"] = dict(tus=REG, runs=[rel("seeds", 60000, 1500000)], rule="Random histories of 1-6 operations on the seeds of a region with holes: lists of up to 1200, files of up to 700, generation rules, cleaning, holes added later, copies; seeds level with corners of the region and of the holes included. Distinct by the hash of the region and the points.")
CHECKS["C10"] = dict(tus=REG, runs=[rel("generate", 200000, 4000000)], rule="Random boxes (sizes 1e-5 to 1e5), counts from 1 to 200 and rules: every built-in function, noises, user functors, for x, y or both. Distinct by the hash of the box, the counts and the rules.")
CHECKS["C19"] = dict(tus=REG, runs=[rel("config", 40000, 800000)], rule="Random sequences of configuration changes (tolerance, scale, discretization grade and angles), with every behaviour that depends on them observed after each. Distinct by the hash of the settings.")
CHECKS["C07"] = dict(tus=["s_history.cpp", "dscene.cpp", "scene.cpp", "meshcheck.cpp"], runs=[rel("history", 20000, 600000)], rule="1-3 random scenes and 4-12 (24 in thorough) requests to fresh, used and copied generators in random order, with repeated seeds, other library calls, copies, and random heap and stack fill in between. Distinct by the hash of the scenes.")

FIL, HOS, HIS = ["s_files.cpp", "scene.cpp"], ["s_hostile.cpp", "dscene.cpp", "scene.cpp", "meshcheck.cpp"], ["s_history.cpp", "dscene.cpp", "scene.cpp", "meshcheck.cpp"]
CHECKS["C16"] = dict(tus=FIL, runs=[rel("printing", 80000, 2000000)], rule="Random meshes (warped grids with cells left out, merged or split and numbered at random; meshes the library generated), regions and small objects, precisions 0 to 14, to files (new or overwritten) and streams (with the caller's own text and number format). Distinct by the hash of the coordinates and precisions.")
CHECKS["C17"] = dict(tus=FIL, runs=[rel("reading", 40000, 800000)], rule="Random mesh files with and without edges, several number formats, separators and line ends, first index -5 to 100000, repeated points, one to three meshes per stream; files the library printed. Distinct by the hash of the coordinates.")
CHECKS["C23"] = dict(tus=HOS, runs=[rel("rejects", 300000, 6000000)], rule="Random outlines, simple or crossing themselves by a margin, by every way of giving one; vertex lists of triangles; files that are not there; single functions; polygons that are not convex. Distinct by the hash of the input.")
CLI = ["s_clipper.cpp"]
CHECKS["C20"] = dict(tus=CLI, runs=[rel("intersection", 200000, 4000000), rel("clipper", 200000, 4000000), rel("offset", 60000, 1000000), rel("pathtools", 100000, 2000000), rel("lines", 100000, 4000000), rel("lineoffset", 60000, 1000000), rel("minkowski", 60000, 1000000), rel("cliptools", 150000, 3000000)], rule="Random sets of 1-8 polygons (simple of 12 kinds, crossing themselves, lattices, copies that share sides, nested) of sizes up to 1e12, all operations, fill rules and options; open lines clipped by polygons (no exactly horizontal sides, even-odd and non-zero rules); lines and sets of outlines grown with every kind of end; Minkowski sums and differences; sets simplified and cleaned, bounds, the limits of the coordinates (up to 2^61 with exact comparisons), offsets by nothing and the roundness of round ends. Distinct by the hash of the coordinates and operations.")

TRI = ["s_triangle.cpp", "s_exact.cpp", "dscene.cpp", "scene.cpp", "meshcheck.cpp"]
CHECKS["C21"] = dict(tus=TRI, runs=[rel("triangle_points", 100000, 2000000), rel("triangle_pslg", 30000, 600000), rel("triangle_exact", 300000, 8000000), rel("triangle_user", 20000, 400000)], rule="Random calls of triangulate(): point sets of 7 kinds (3-900 points, 3000 in thorough; random, lattices, circles, grids, nearly collinear, clusters, flat; some repeated) with attributes and markers under random switches (z e n v j B c l i F X o2); outlines of 12 kinds with holes, segments (crossing too), markers, regions and attributes under p with q, a (one area or one per region), A, D, Y, S, s, i, l, j, o2, O, c, P, N, E; meshes refined again with one area or one per triangle; and sets of 3-20 points (with segments through them) exactly or within a unit in the last place of being cocircular or collinear, at mixed magnitudes, judged with integers of any length. Distinct by the hash of the points and switches.")

ALL = [(VOR, "voronoi_tile", 1, 1), (VOR, "voronoi_near", .5, 0), (VOR, "voronoi_maps", 1, 1), (DEL, "delaunay_constrained", 1, 1), (DEL, "delaunay_conforming", 1, 1), (DEL, "delaunay_maps", .5, 0), (GEO, "polygon", 1, 1), (GEO, "triangle", .5, 1), (GEO, "boundingbox", .5, 1), (GEO, "segments", 1, 1), (GEO, "triangulators", 1, 1), (GEO, "convexhull", 1, 1),
       (MOD, "uniquelist", .6, 1), (MOD, "segmentmap", 1, 1), (MOD, "pointmap", .6, 1), (REG, "holes", 1, 1), (REG, "seeds", .6, 1), (REG, "generate", 1, 1), (REG, "config", .6, 1), (FIL, "printing", .6, .5), (FIL, "reading", .6, .5), (CLI, "clipper", 2, 1), (CLI, "intersection", 1, 1), (CLI, "offset", 1, .5), (CLI, "pathtools", 1, 1), (CLI, "lines", 1, 1), (CLI, "lineoffset", .6, .5), (CLI, "minkowski", .6, .5), (CLI, "cliptools", 1, .5), (TRI, "triangle_points", 1, 1), (TRI, "triangle_pslg", .6, .5), (TRI, "triangle_exact", 1, 1), (TRI, "triangle_user", .3, .2), (HIS, "history", .2, .3), (HOS, "rejects", 1, 1), (HOS, "tiny", 2, 1), (HOS, "degenerate", 8, 1), (HOS, "lifecycles", 1, .5), (HOS, "extremes", 1, .5), (HOS, "large", .02, 0)]
CHECKS["C18"] = dict(tus=HOS, runs=[san(s, int(1000 * w), int(60000 * w), tus=t, only_crashes=True, cpu=60) for t, s, w, v in ALL]
                     + [rel(s, int(64 * v), int(1000 * v), tus=t, only_crashes=True, valgrind=True, cpu=60) for t, s, w, v in ALL if v]
                     + [rel("tiny", 10000, 400000, only_crashes=True), rel("large", 60, 2000, only_crashes=True, cpu=120), rel("degenerate", 40000, 1000000, only_crashes=True), rel("lifecycles", 4000, 100000, only_crashes=True), rel("extremes", 20000, 400000, only_crashes=True)],
                     rule="Every suite of the other checks under AddressSanitizer, UndefinedBehaviorSanitizer and the checked standard library, and again under valgrind memcheck for uninitialised values; plus seeds at and below the tolerance from each other and from the boundary (tiny), meshes of thousands of points (large), objects copied, kept, and destroyed in random order (lifecycles), the ends of the integer range (extremes), and outlines without area, with repeated points, spikes, pinches or fewer than three points (degenerate; not handed to the mesh generators, of which only simple outlines are valid domains). Only crashes, sanitizer and valgrind reports, exits and hangs count here. Distinct by the hash of the input.",
                     assumptions=["leaks are not judged: the library hands out maps and functors that it never frees"])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (both are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
S = "delynoi/src/"
I = "delynoi/include/delynoi/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files, mech=mech, state=state, observe=observe, technique=technique, note=note))


prop("C01", "Voronoi cells tile the domain minus its holes",
     "For every domain bounded by a simple polygon, every set of disjoint holes strictly inside it and every set of seeds inside it or on its boundary, the cells of the Voronoi mesh are simple polygons with positive area and counter-clockwise vertices, no two cells overlap, and together they cover exactly the domain minus its holes (up to the comparison tolerance). Every side of a cell is either the same side of exactly one other cell, traversed the other way, or lies on the boundary of the domain or of a hole.",
     ["inputs"], "all simple domains (convex or not, translated, large and small, with collinear vertices), hole sets and seed sets, including degenerate layouts: grids, cocircular and collinear seeds, no seeds, seeds on the boundary",
     "Cell construction walks around each seed through shared circumcentres, boundary midpoints and closing edges; which branch runs depends on the geometry of the particular input, and the unit tests compare a few cells of a few fixed domains.",
     [S + "voronoi/DelaunayToVoronoi.cpp", S + "voronoi/TriangleDelaunayGenerator.cpp", S + "models/polygon/Polygon.cpp", "lib/utilities/include/utilities/UniqueList.h"],
     [("walk around each generating point and boundary closing", S + "voronoi/DelaunayToVoronoi.cpp: DelaunayToVoronoi"), ("merging of coincident nodes", "UniqueList.h: push_back"), ("orientation repair", S + "models/polygon/Polygon.cpp: fixCCW")],
     technique="runtime monitoring: geometric oracle (edge matching, area conservation, point membership) over generated scenes",
     note="Held on every generated scene; trusts the long double reference geometry in mon/geom.cpp. Node positions are compared up to 1e-5..1e-4 because nodes closer than the tolerance are merged by design.")
prop("C02", "Each Voronoi cell is what is nearest to its generating point",
     "The Voronoi mesh has exactly one cell per generating point: every seed, every vertex of the domain and of its holes, plus points that lie on the boundary and nothing else; each cell contains its own generating point and no other. No point of a cell is nearer to another generating point that it can see without crossing the boundary of the domain or of a hole.",
     ["inputs"], "all domains, hole sets and seed sets as for C01",
     "Nearness must hold at every point of every cell for arbitrary seed layouts; tests only compare a few node lists.",
     [S + "voronoi/DelaunayToVoronoi.cpp", S + "voronoi/TriangleVoronoiGenerator.cpp", S + "models/polygon/Triangle.cpp", S + "voronoi/TriangleDelaunayGenerator.cpp"],
     [("circumcentres as cell nodes", S + "models/polygon/Triangle.cpp: calculateCircumcenter"), ("midpoints of boundary edges as cell nodes", S + "voronoi/DelaunayToVoronoi.cpp: getCircumcenter"), ("one cell per used point", S + "voronoi/TriangleDelaunayGenerator.cpp: realPoints")],
     technique="runtime monitoring: nearest-generator oracle probing every cell of generated scenes",
     note="Probes the corners and random interior points of every cell against all generating points; sampling inside cells, exhaustive over cells and generators.")
prop("C03", "Neighbourhood information of Voronoi meshes matches the cells",
     "In every Voronoi mesh, looking up a side of a cell (in either direction of its endpoints) gives exactly the indices of the cells that have that side, with -1 for the missing neighbour of a side on the boundary; the recorded sides are exactly the sides of the cells. Looking up a node gives exactly the cells that have it as a vertex, every node of the mesh is used by some cell, and nodes on the boundary of the domain or of a hole are the ones flagged as boundary nodes.",
     ["inputs"], "all Voronoi meshes of the scenes of C01, every edge and every node of them",
     "The maps are filled incrementally while the cells are built, on several branches; consistency with the finished cells must hold for every edge and node of any mesh.",
     [S + "voronoi/DelaunayToVoronoi.cpp", S + "models/neighbourhood/SegmentMap.cpp", S + "models/neighbourhood/PointMap.cpp", I + "models/Mesh.h"],
     [("edge map filled during the walk", S + "voronoi/DelaunayToVoronoi.cpp"), ("hash of undirected edges", S + "models/basic/IndexSegment.cpp"), ("point map ordered with tolerance", S + "models/basic/Point.cpp: operator<")],
     technique="runtime monitoring: full recomputation of the neighbourhood maps from the cells",
     note="Every edge and node of every generated mesh is compared.")
prop("C04", "Constrained Delaunay triangulation honours constraints and is Delaunay",
     "For every domain with disjoint inner holes, seeds and restricted segments inside the domain, the constrained triangulation consists of counter-clockwise triangles that tile the domain minus its holes edge to edge, and its vertices are exactly the domain and hole vertices, the seeds inside the domain, the ends of the restricted segments and the crossing points of constraints. Every side of the domain and of the holes and every restricted segment is made of triangle edges. Every other interior edge is locally Delaunay: the circumcircle of a triangle next to it does not contain the opposite vertex of the other.",
     ["inputs"], "all domains, hole sets, seed sets (also with points outside the domain, which are ignored) and restricted segments (sharing ends, crossing each other, through seeds, with ends that are no seeds)",
     "Delaunayhood is a condition on every edge of every triangulation, and constraint recovery depends on how segments cut through the unconstrained triangulation.",
     [S + "voronoi/TriangleDelaunayGenerator.cpp", I + "voronoi/TriangleDelaunayGenerator.h", I + "voronoi/lib/triangle.c"],
     [("segment and hole input to Triangle", S + "voronoi/TriangleDelaunayGenerator.cpp: callTriangle"), ("divide and conquer triangulation, segment insertion, hole carving", I + "voronoi/lib/triangle.c"), ("merging of duplicate points", I + "voronoi/TriangleDelaunayGenerator.h: initializeMesh")],
     technique="runtime monitoring: empty-circumcircle and constraint-recovery oracle over generated scenes",
     note="All edges of all generated triangulations are tested; angles summing to pi within 1e-6 count as cocircular.")
prop("C05", "Conforming Delaunay triangulation is Delaunay everywhere",
     "For every domain, set of disjoint inner holes and seeds, the conforming triangulation tiles the domain minus its holes with counter-clockwise triangles edge to edge, contains every seed in the domain and every domain and hole vertex, and every point it adds lies on the boundary of the domain or of a hole. Every interior edge is locally Delaunay, and every circumcentre of a triangle lies in the domain (not in a hole).",
     ["inputs"], "all domains, hole sets and seed sets as for C01",
     "The number and position of added points depends on the input, and the Delaunay condition is on every edge.",
     [S + "voronoi/TriangleDelaunayGenerator.cpp", I + "voronoi/TriangleDelaunayGenerator.h", I + "voronoi/lib/triangle.c"],
     [("conforming switches", S + "voronoi/TriangleDelaunayGenerator.cpp: getConformingDelaunayTriangulation"), ("segment splitting", I + "voronoi/lib/triangle.c: splitencsegs")],
     technique="runtime monitoring: Delaunay, subdivision and circumcentre oracle over generated scenes",
     note="All edges, triangles and vertices of all generated triangulations are tested.")
prop("C06", "Neighbourhood information of triangulations matches the triangles",
     "In every constrained or conforming triangulation, the triangulation kept by the Voronoi generator included, looking up an edge gives exactly the one or two triangles that have it (-1 for the missing one), and the recorded edges are exactly the edges of the triangles. Looking up a vertex gives exactly the triangles that use it, and the vertices flagged as boundary ones are those on the boundary.",
     ["inputs"], "all triangulations of the scenes of C04 and C05, every edge and vertex of them",
     "Consistency has to hold for every edge and vertex of any triangulation.",
     [S + "voronoi/TriangleDelaunayGenerator.cpp", I + "voronoi/TriangleDelaunayGenerator.h", S + "models/neighbourhood/SegmentMap.cpp", S + "models/neighbourhood/PointMap.cpp", S + "models/neighbourhood/EdgeData.cpp"],
     [("edge to triangles", S + "voronoi/TriangleDelaunayGenerator.cpp: callTriangle"), ("point to triangles", I + "voronoi/TriangleDelaunayGenerator.h: initializeMesh")],
     technique="runtime monitoring: full recomputation of the neighbourhood maps from the triangles",
     note="Every edge and vertex of every generated triangulation is compared.")
exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

ASAN = "exploration"
NA = {}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in P:
    if p["id"] not in CHECKS:
        continue
    checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"], evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"], level="exploration", level_note=p["note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p["id"] not in CHECKS]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 run.py --warm", checks=checks, not_applicable=na, notes="No hooks were needed: the library is observed through its public interface. Checks build /repo's working tree into /verif/.build (ignored by git)."), f, indent=1)
    f.write("\n")

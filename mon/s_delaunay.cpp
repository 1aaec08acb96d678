// Delaunay triangulations: C04 (constrained), C05 (conforming), C06 (neighbourhood maps).
#include "dscene.h"

// opposite angle of edge uv in a triangle with apex w, in radians
static LD apex(const P2& u, const P2& v, const P2& w) {
    LD ax = (LD)u.x - w.x, ay = (LD)u.y - w.y, bx = (LD)v.x - w.x, by = (LD)v.y - w.y;
    return std::atan2(std::fabs(ax * by - ay * bx), ax * bx + ay * by);
}
static bool onSeg(const P2& p, const P2& a, const P2& b, LD eps) { return distSeg(p, a, b) <= eps; }
// the constraint ab is a chain of mesh edges
static void checkChain(Ctx& c, const RMesh& m, const EdgeCells& e, const P2& a, const P2& b, double eps, const char* what) {
    std::vector<std::pair<LD, int>> on;
    for (size_t i = 0; i < m.pts.size(); i++) if (onSeg(m.pts[i], a, b, eps)) on.push_back({dist(a, m.pts[i]), (int)i});
    std::sort(on.begin(), on.end());
    c.check(on.size() >= 2 && dist(m.pts[on.front().second], a) <= eps && dist(m.pts[on.back().second], b) <= eps, "constraint-ends", "an end of the %s %s-%s is no vertex", what, ptStr(a).c_str(), ptStr(b).c_str());
    for (size_t k = 1; k < on.size(); k++) {
        int u = on[k - 1].second, v = on[k].second;
        c.check(e.count({std::min(u, v), std::max(u, v)}), "constraint-edge", "the %s %s-%s is not made of mesh edges (piece %d-%d)", what, ptStr(a).c_str(), ptStr(b).c_str(), u, v);
    }
    c.count("constraint_pieces", on.size() - 1);
}
static void note(Ctx& c, const DScene& o, const RMesh& m) {
    c.mark(o.s.hash());
    c.count("seeds", o.s.seeds.size()); c.count("holes", o.s.holes.size()); c.count("restricted_segments", o.segs.size()); c.count("points_outside", o.outside.size());
    if (c.samples.size() < 2 && o.s.seeds.size() > 1) c.samples.push_back(strf("%s -> %zu triangles", c.desc.c_str(), m.cells.size()));
}
static void checkTriangles(Ctx& c, const RMesh& m, const DScene& o, double eps, bool conforming) {
    const Domain& d = o.s.dom;
    for (size_t k = 0; k < m.cells.size(); k++) c.check(m.cells[k].size() == 3, "triangle-size", "element %zu has %zu vertices", k, m.cells[k].size());
    checkSubdivision(c, m, d, eps, "triangle");
    // vertices: every seed of the domain, every vertex of it; the others as allowed
    std::vector<P2> given = o.s.all();
    for (auto& p : o.s.outer) given.push_back(p);
    for (auto& h : d.holes) for (auto& p : h) given.push_back(p);
    for (auto& g : o.segs) { given.push_back(g.first); given.push_back(g.second); }
    std::vector<char> used(m.pts.size(), 0);
    for (auto& q : m.cells) for (int i : q) used[i] = 1;
    std::vector<char> known(m.pts.size(), 0);
    for (auto& p : given) {
        bool f = false;
        for (size_t i = 0; i < m.pts.size(); i++) if (used[i] && std::fabs(m.pts[i].x - p.x) < 2e-5 && std::fabs(m.pts[i].y - p.y) < 2e-5) { f = true; known[i] = 1; }
        c.check(f, "vertex-lost", "given point %s is no vertex of the triangulation", ptStr(p).c_str());
    }
    for (size_t i = 0; i < m.pts.size(); i++) if (used[i] && !known[i]) {
        bool ok = false;
        if (conforming) { ok = d.boundaryDist(m.pts[i]) <= eps; c.count("steiner_points"); }
        else { int n = 0; for (auto& g : o.segs) if (onSeg(m.pts[i], g.first, g.second, eps)) n++; ok = n >= 2; c.count("crossing_points"); }
        c.check(ok, "vertex-extra", "vertex %s was not given", ptStr(m.pts[i]).c_str());
    }
    EdgeCells e = edgeCells(m);
    auto chain = [&](const Ring& r, const char* w) { for (size_t i = 0; i < r.size(); i++) checkChain(c, m, e, r[i], r[(i + 1) % r.size()], eps, w); };
    chain(o.s.outer, "domain edge");
    for (auto& h : d.holes) chain(h, "hole edge");
    for (auto& g : o.segs) checkChain(c, m, e, g.first, g.second, eps, "restricted segment");
    for (auto& kv : e) {
        int u = kv.first.first, v = kv.first.second;
        auto third = [&](int t) { for (int i : m.cells[t]) if (i != u && i != v) return i; return -1; };
        if (kv.second.size() == 2) {
            bool constrained = false;
            for (auto& g : o.segs) if (onSeg(m.pts[u], g.first, g.second, eps) && onSeg(m.pts[v], g.first, g.second, eps)) constrained = true;
            if (constrained) { c.count("constrained_edges"); continue; }
            LD s = apex(m.pts[u], m.pts[v], m.pts[third(kv.second[0])]) + apex(m.pts[u], m.pts[v], m.pts[third(kv.second[1])]);
            c.check(s <= (LD)M_PI + 1e-6L, "not-delaunay", "edge %s-%s is not Delaunay: opposite angles add up to %.9Lg degrees", ptStr(m.pts[u]).c_str(), ptStr(m.pts[v]).c_str(), s * 180 / M_PI);
            c.count("delaunay_edges");
        } else if (conforming) {
            LD s = apex(m.pts[u], m.pts[v], m.pts[third(kv.second[0])]);
            c.check(s <= (LD)M_PI / 2 + 1e-6L, "encroached", "boundary edge %s-%s sees a vertex inside its diametral circle (angle %.9Lg)", ptStr(m.pts[u]).c_str(), ptStr(m.pts[v]).c_str(), s * 180 / M_PI);
        }
    }
    if (conforming) for (size_t k = 0; k < m.cells.size(); k++) {
        Ring g = m.ring(k); LD x, y, rad;
        c.check(circumcircle(g[0], g[1], g[2], x, y, rad), "degenerate", "triangle %s is degenerate", ringStr(g).c_str());
        P2 cc = {(double)x, (double)y};
        c.check(d.inside(cc) || d.boundaryDist(cc) <= 1e-6 * o.s.size, "circumcenter-outside", "the circumcentre %s of triangle %s is outside the domain", ptStr(cc).c_str(), ringStr(g).c_str());
    }
}
static bool skipAmb(Ctx& c, const RMesh& m) { if (ambiguousPoints(m.pts, DelynoiConfig::instance()->getTolerance())) { c.skipped++; c.count("skipped_ambiguous"); return true; } return false; }

SUITE(delaunay_constrained, 0) {
    DScene o = makeScene(c, c.rng.p(0.6));
    std::vector<Point> seeds = seedList(c, o); Region reg = o.s.region();
    TriangleDelaunayGenerator g(seeds, reg);
    Mesh<Triangle> m = o.segs.empty() && c.rng.p(0.5) ? g.getConstrainedDelaunayTriangulation() : g.getConstrainedDelaunayTriangulation(segList(o));
    RMesh r = readMesh(m);
    if (skipAmb(c, r)) return;
    checkTriangles(c, r, o, 1e-9 * o.s.size + 2.5e-16 * 1e4 * (std::fabs(o.s.outer[0].x) + std::fabs(o.s.outer[0].y)), false);
    note(c, o, r);
}
SUITE(delaunay_conforming, 0) {
    DScene o = makeScene(c, false);
    std::vector<Point> seeds = seedList(c, o); Region reg = o.s.region();
    RMesh r;
    if (c.rng.p(0.7)) { TriangleDelaunayGenerator g(seeds, reg); Mesh<Triangle> m = g.getConformingDelaunayTriangulation(); r = readMesh(m); }
    else { TriangleVoronoiGenerator g(seeds, reg); Mesh<Polygon> m = g.getTriangulation(); r = readMesh(m); c.count("via_voronoi_generator"); }
    if (skipAmb(c, r)) return;
    checkTriangles(c, r, o, 1e-9 * o.s.size + 2.5e-16 * 1e4 * (std::fabs(o.s.outer[0].x) + std::fabs(o.s.outer[0].y)), true);
    note(c, o, r);
}
SUITE(delaunay_maps, 0) {
    DScene o = makeScene(c, c.rng.p(0.4));
    std::vector<Point> seeds = seedList(c, o); Region reg = o.s.region();
    double eps = 1e-8 * o.s.size;
    int kind = c.rng.i(0, 2);
    auto judge = [&](auto m) {
        RMesh r = readMesh(m);
        if (skipAmb(c, r)) return;
        checkMaps(c, m.getSegments(), m.getPointMap(), r, o.s.dom, eps, "Delaunay");
        for (auto& kv : edgeCells(r)) {
            NeighboursBySegment n = m.getNeighbours(IndexSegment(kv.first.first, kv.first.second)), k = m.getSegments()->get(IndexSegment(kv.first.first, kv.first.second));
            c.check(n == k, "mesh-getneighbours", "Mesh::getNeighbours disagrees with the map");
        }
        note(c, o, r);
    };
    if (kind == 0) { TriangleDelaunayGenerator g(seeds, reg); judge(g.getConstrainedDelaunayTriangulation(segList(o))); }
    else if (kind == 1) { TriangleDelaunayGenerator g(seeds, reg); judge(g.getConformingDelaunayTriangulation()); }
    else { TriangleVoronoiGenerator g(seeds, reg); judge(g.getTriangulation()); }
}

#include "meshcheck.h"

EdgeCells edgeCells(const RMesh& m) {
    EdgeCells e;
    for (size_t k = 0; k < m.cells.size(); k++) {
        auto& q = m.cells[k];
        for (size_t i = 0; i < q.size(); i++) {
            int a = q[i], b = q[(i + 1) % q.size()];
            e[{std::min(a, b), std::max(a, b)}].push_back((int)k);
        }
    }
    return e;
}
bool alongBoundary(const Domain& d, const P2& a, const P2& b, double tol) {
    if (d.onCommonEdge(a, b, tol)) return true;
    // along several collinear edges
    for (int k = 0; k <= 8; k++) { P2 m = {a.x + (b.x - a.x) * k / 8.0, a.y + (b.y - a.y) * k / 8.0}; if (d.boundaryDist(m) > tol) return false; }
    return true;
}
void checkSubdivision(Ctx& c, const RMesh& m, const Domain& d, double tol, const char* what) {
    int np = (int)m.pts.size();
    LD total = 0, perim = 0;
    std::vector<char> used(np, 0);
    std::map<std::pair<int, int>, int> directed;
    for (size_t k = 0; k < m.cells.size(); k++) {
        auto& q = m.cells[k];
        c.check(q.size() >= 3, "cell-size", "%s %zu has %zu vertices", what, k, q.size());
        std::set<int> uniq;
        for (int i : q) {
            c.check(i >= 0 && i < np, "cell-index", "%s %zu refers to point %d of %d", what, k, i, np);
            c.check(std::isfinite(m.pts[i].x) && std::isfinite(m.pts[i].y), "cell-finite", "%s %zu has a vertex that is not a number", what, k);
            c.check(uniq.insert(i).second, "cell-repeats", "%s %zu visits point %d twice", what, k, i);
            used[i] = 1;
        }
        Ring g = m.ring(k);
        LD a = ringArea(g);
        if (a <= 0 && g.size() == 3) { typedef __float128 Q; Q d = ((Q)g[1].x - g[0].x) * ((Q)g[2].y - g[0].y) - ((Q)g[1].y - g[0].y) * ((Q)g[2].x - g[0].x); if (d > 0) a = std::max((LD)d, (LD)1e-300L); }      // thinner than a long double can tell
        c.check(a > 0, "cell-orientation", "%s %zu is not counter-clockwise (signed area %.12Lg): %s", what, k, a, ringStr(g).c_str());
        c.check(ringSimple(g, tol), "cell-simple", "%s %zu intersects itself: %s", what, k, ringStr(g).c_str());
        total += a; perim += ringPerimeter(g);
        for (size_t i = 0; i < q.size(); i++) {
            int u = q[i], v = q[(i + 1) % q.size()];
            int& n = directed[{u, v}];
            c.check(++n == 1, "edge-shared-same-side", "two elements lie on the same side of edge %d-%d", u, v);
        }
        for (auto& p : g) c.check(d.inside(p) || d.boundaryDist(p) <= tol, "cell-outside", "%s %zu has a vertex %s outside the domain (%.3Lg)", what, k, ptStr(p).c_str(), d.boundaryDist(p));
    }
    for (auto& kv : directed) {
        int u = kv.first.first, v = kv.first.second;
        if (directed.count({v, u})) { c.count("interior_edge_sides"); continue; }
        c.count("boundary_edges");
        c.check(alongBoundary(d, m.pts[u], m.pts[v], tol), "edge-unmatched", "edge %d-%d %s%s has an element on one side only and is not on the boundary", u, v, ptStr(m.pts[u]).c_str(), ptStr(m.pts[v]).c_str());
    }
    LD want = d.area();
    LD slack = 1e-9L * want + tol * (0.02L * perim) + 0.5e-5L * 0.2L * m.cells.size();
    c.check(std::fabs(total - want) <= slack, "area-sum", "areas of the %s elements add up to %.12Lg, the domain's area is %.12Lg (difference %.3Lg, allowed %.3Lg)", what, total, want, total - want, slack);
    c.count("elements", m.cells.size()); c.count("mesh_points", np);
    c.maxi("elements", m.cells.size());
}
void checkMaps(Ctx& c, SegmentMap* sm, PointMap* pm, const RMesh& r, const Domain& d, double tol, const char* what) {
    EdgeCells e = edgeCells(r);
    c.check(sm && pm, "map-missing", "a neighbourhood map is missing");
    c.check(sm->size() == (int)e.size(), "segmap-size", "the segment map of the %s mesh has %d segments, the elements have %zu edges", what, sm->size(), e.size());
    for (auto& kv : e) {
        int u = kv.first.first, v = kv.first.second;
        for (int flip = 0; flip < 2; flip++) {
            IndexSegment s = flip ? IndexSegment(v, u) : IndexSegment(u, v);
            c.check(sm->containsSegment(s), "segmap-lacks", "edge %d-%d of an element is not in the segment map", u, v);
            NeighboursBySegment n = sm->get(s);
            std::multiset<int> got = {n.getFirst(), n.getSecond()}, want(kv.second.begin(), kv.second.end());
            if (want.size() == 1) want.insert(-1);
            c.check(got == want, "segmap-wrong", "edge %d-%d: the map gives neighbours %d,%d; the elements using it are %d,%d", u, v, n.getFirst(), n.getSecond(), kv.second[0], kv.second.size() > 1 ? kv.second[1] : -1);
        }
        bool one = kv.second.size() == 1;
        if (one) c.check(alongBoundary(d, r.pts[u], r.pts[v], tol), "boundary-neighbour", "edge %d-%d has no second neighbour and is not on the boundary", u, v);
        c.count(one ? "segmap_boundary_edges" : "segmap_interior_edges");
    }
    std::map<int, std::set<int>> pc;
    for (size_t k = 0; k < r.cells.size(); k++) for (int i : r.cells[k]) pc[i].insert((int)k);
    c.check(pm->size() == (int)pc.size(), "pointmap-size", "the point map of the %s mesh has %d points, the elements have %zu vertices", what, pm->size(), pc.size());
    std::vector<std::pair<P2, std::set<int>>> entries;
    for (auto& kv : pm->getMap()) { auto n = kv.second.getNeighbours(); entries.push_back({toP2(kv.first), std::set<int>(n.begin(), n.end())}); }
    for (auto& kv : pc) {
        const P2& p = r.pts[kv.first];
        auto n = pm->get(Point(p.x, p.y)).getNeighbours();
        std::set<int> got(n.begin(), n.end());
        c.check(got == kv.second, "pointmap-wrong", "point %d %s: the map lists %zu elements, %zu elements have it as a vertex", kv.first, ptStr(p).c_str(), got.size(), kv.second.size());
        c.count("pointmap_points");
    }
    c.check(pm->size() == (int)pc.size(), "pointmap-lookup", "looking up the vertices added entries to the point map");
    // the flagged points are the ones on the boundary
    for (size_t i = 0; i < r.pts.size(); i++) {
        c.check(pc.count((int)i), "point-unused", "no element has point %zu %s of the %s mesh as a vertex", i, ptStr(r.pts[i]).c_str(), what);
        if (!r.flagged[i]) c.check(d.boundaryDist(r.pts[i]) >= 1e-13, "flag-missing", "point %zu %s lies on the boundary and is not marked as a boundary point", i, ptStr(r.pts[i]).c_str());
    }
    for (size_t i = 0; i < r.pts.size(); i++) if (r.flagged[i] && pc.count((int)i)) {
        c.count("flagged_points");
        c.check(d.boundaryDist(r.pts[i]) <= tol, "flag-boundary", "point %zu %s is marked as a boundary point and is not on the boundary", i, ptStr(r.pts[i]).c_str());
    }
}

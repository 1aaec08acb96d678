// Polygons (C11), segments (C12), triangulations of one polygon (C13), convex hull and diameter (C22).
#include "lib.h"
#include "core.h"
#include "gen.h"
#include <set>

struct GPoly { Ring ring; std::vector<Point> pts; std::vector<int> idx; bool cw; std::string name; double size; };
// a polygon given by indexes into a longer, shuffled list of points
static GPoly genPoly(Ctx& c, bool any = true) {
    Rng& r = c.rng; GPoly g; RingOpts o; o.size = r.pick(std::vector<double>{1, 10, 10, 10, 100, 1000}); o.minClear = 0.02; o.maxN = 40; g.size = o.size;
    if (o.size == 1) DelynoiConfig::instance()->setTolerance(1e-7);
    if (r.p(0.06)) g.ring = genBigRing(r, o.size, r.i(40, 150), 10, &g.name); else g.ring = genRing(r, o, -1, &g.name);
    g.cw = any && r.p(0.4); if (g.cw) g.ring = reversed(g.ring);
    int extra = r.p(0.5) ? r.i(0, r.p(0.05) ? 300 : 15) : 0, n = (int)g.ring.size(); std::vector<int> slot; for (int k = 0; k < n + extra; k++) slot.push_back(k);
    if (r.p(0.6)) r.shuffle(slot);
    g.pts.assign(n + extra, Point(0, 0)); P2 lo, hi; bbox(g.ring, lo, hi);
    for (int k = 0; k < n; k++) { g.pts[slot[k]] = toPt(g.ring[k]); g.idx.push_back(slot[k]); }
    for (int k = n; k < n + extra; k++) g.pts[slot[k]] = Point(r.u(lo.x - o.size, hi.x + o.size), r.u(lo.y - o.size, hi.y + o.size));
    c.desc = strf("%s %s ", g.name.c_str(), g.cw ? "clockwise" : "counter-clockwise") + ringStr(g.ring);
    c.desc += " indexes"; for (int i : g.idx) c.desc += strf(" %d", i);
    return g;
}
static uint64_t ringHash(const Ring& r) { uint64_t h = 11; for (auto& p : r) h = hashd(hashd(h, p.x), p.y); return h; }
static LD mag(const Ring& r) { LD m = 0; for (auto& p : r) m = std::max(m, std::max(std::fabs((LD)p.x), std::fabs((LD)p.y))); return m; }
// +1 convex, -1 not convex, 0 too close to tell
static int convexity(const Ring& r) {
    size_t n = r.size(); LD s = ringArea(r) > 0 ? 1 : -1; bool unsure = false, reflex = false;
    for (size_t k = 0; k < n; k++) {
        LD o = s * orient(r[k], r[(k + 1) % n], r[(k + 2) % n]), scale = dist(r[k], r[(k + 1) % n]) * dist(r[(k + 1) % n], r[(k + 2) % n]);
        if (o < -1e-9L * scale) reflex = true;
        else if (o < 1e-9L * scale) { if (o != 0) unsure = true; else {
            // exactly straight in exact arithmetic, and with coordinates for which doubles agree?
            double dx1 = r[(k + 1) % n].x - r[k].x, dy1 = r[(k + 1) % n].y - r[k].y, dx2 = r[(k + 2) % n].x - r[k].x, dy2 = r[(k + 2) % n].y - r[k].y;
            if (!(dx1 == 0 && dx2 == 0) && !(dy1 == 0 && dy2 == 0)) unsure = true; } }
    }
    return reflex ? -1 : unsure ? 0 : 1;
}
struct Facts { LD area, cx, cy, diam, edge, ax, ay; };
static Facts facts(const Ring& r) {
    Facts f; f.area = ringArea(r); ringCentroid(r, f.cx, f.cy); f.diam = ringDiameter(r); f.edge = 0; f.ax = f.ay = 0;
    for (size_t k = 0; k < r.size(); k++) { f.edge = std::max(f.edge, dist(r[k], r[(k + 1) % r.size()])); f.ax += r[k].x; f.ay += r[k].y; }
    f.ax /= r.size(); f.ay /= r.size(); return f;
}
static void measures(Ctx& c, Polygon& p, std::vector<Point>& pts, const Ring& r, const char* when) {
    Facts f = facts(r); LD m = mag(r), ea = 1e-12L * m * m * r.size(), el = 1e-12L * m;
    LD ec = 1e-13L * m * m * m * r.size() / std::fabs(f.area) + el;
    bool cw = f.area < 0;
    double a = p.getArea(pts), sa = p.signedArea(pts);
    c.check(std::fabs(sa - f.area) <= ea, "signed-area", "%s: signed area %.17g, should be %.17Lg", when, sa, f.area);
    c.check(std::fabs(a - f.area) <= ea, "area", "%s: area %.17g, should be %.17Lg", when, a, f.area);
    Point q = p.getCentroid(pts);
    c.check(std::fabs(q.getX() - f.cx) <= ec && std::fabs(q.getY() - f.cy) <= ec, "centroid", "%s: centroid (%.17g,%.17g), should be (%.17Lg,%.17Lg)", when, q.getX(), q.getY(), f.cx, f.cy);
    double d = p.getDiameter(pts);
    c.check(std::fabs(d - f.diam) <= el, "diameter", "%s: diameter %.17g, should be %.17Lg", when, d, f.diam);
    c.check(std::fabs(p.getMaxDistance(pts) - f.diam) <= el, "max-distance", "%s: getMaxDistance is %.17g, should be %.17Lg", when, p.getMaxDistance(pts), f.diam);
    Point v = p.getAverage(pts);
    c.check(std::fabs(v.getX() - f.ax) <= el && std::fabs(v.getY() - f.ay) <= el, "average", "%s: average (%.17g,%.17g), should be (%.17Lg,%.17Lg)", when, v.getX(), v.getY(), f.ax, f.ay);
    c.check(p.isClockwise(pts) == cw, "clockwise", "%s: isClockwise is %d, should be %d", when, (int)p.isClockwise(pts), cw);
    int cv = convexity(r);
    if (cv) { c.count(cv > 0 ? "convex" : "nonconvex"); c.check(p.isConvex(pts) == (cv > 0), "convex", "%s: isConvex is %d, should be %d", when, (int)p.isConvex(pts), cv > 0); }
    c.check(p.numberOfSides() == (int)r.size(), "sides", "%s: %d sides, should be %zu", when, p.numberOfSides(), r.size());
}
static void membership(Ctx& c, Polygon& p, std::vector<Point>& pts, const Ring& r, const std::vector<int>& idx, double size, Region* reg) {
    Rng& rg = c.rng; P2 lo, hi; bbox(r, lo, hi); int n = (int)r.size();
    double tol = DelynoiConfig::instance()->getTolerance();
    LD minEdge = 1e300L; for (int k = 0; k < n; k++) minEdge = std::min(minEdge, dist(r[k], r[(k + 1) % n]));
    LD margin = 4 * std::max((LD)tol, (LD)tol / minEdge) + 1e-9L * (mag(r) + 1);
    for (int k = 0; k < 24; k++) {
        P2 q = {rg.u(lo.x - 0.1 * size, hi.x + 0.1 * size), rg.u(lo.y - 0.1 * size, hi.y + 0.1 * size)};
        int mode = rg.i(0, 9);
        if (mode == 0) q.y = rg.pick(r).y;           // level with a vertex
        if (mode == 1) q.x = rg.pick(r).x;
        if (mode == 2) { int e = rg.i(0, n - 1); P2 a = r[e], b = r[(e + 1) % n]; double t = rg.u(-0.5, 1.5); q = P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; }   // in line with an edge
        if (mode == 3) { int e = rg.i(0, n - 1); double dd = size * std::pow(10.0, -rg.u(1, 3)), t = rg.u(0, 6.3); q = P2{r[e].x + dd * cos(t), r[e].y + dd * sin(t)}; }
        LD d = ringBoundaryDist(r, q);
        if (d <= margin) { c.count("membership_too_close"); continue; }
        bool want = ringContains(r, q);
        c.count(want ? "points_inside" : "points_outside");
        c.check(p.containsPoint(pts, toPt(q)) == want, "contains", "containsPoint(%s) is %d, should be %d (distance to the boundary %.3Lg)", ptStr(q).c_str(), !want, want, d);
        c.check(!p.inEdges(pts, toPt(q)), "inedges", "inEdges(%s) is true at distance %.3Lg of the boundary", ptStr(q).c_str(), d);
        IndexSegment s = p.containerEdge(pts, toPt(q)); c.check(s.getFirst() == -1 && s.getSecond() == -1, "containeredge", "containerEdge(%s) gives an edge", ptStr(q).c_str());
        if (reg) c.check(reg->containsPoint(toPt(q)) == want && !reg->inEdges(toPt(q)), "region-contains", "Region::containsPoint(%s) is %d, should be %d", ptStr(q).c_str(), (int)reg->containsPoint(toPt(q)), want);
    }
    for (int k = 0; k < 8; k++) {
        int e = rg.i(0, n - 1); P2 a = r[e], b = r[(e + 1) % n]; double t = rg.p(0.2) ? 0 : rg.p(0.3) ? 0.5 : rg.u(); P2 q = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
        if (1e-15L * (mag(r) + 1) * (mag(r) + 1) > tol * 0.05) break;
        c.count("points_on_edges");
        c.check(p.inEdges(pts, toPt(q)) && p.containsPoint(pts, toPt(q)), "on-edge", "point %s of edge %d is not contained", ptStr(q).c_str(), e);
        IndexSegment s = p.containerEdge(pts, toPt(q));
        c.check(s.getFirst() >= 0 && distSeg(q, toP2(pts[s.getFirst()]), toP2(pts[s.getSecond()])) <= margin && p.containsEdge(s), "containeredge", "containerEdge(%s) is %d-%d", ptStr(q).c_str(), s.getFirst(), s.getSecond());
        if (reg) c.check(reg->inEdges(toPt(q)) && reg->containsPoint(toPt(q)), "region-on-edge", "point %s of edge %d is not in the region", ptStr(q).c_str(), e);
    }
}
SUITE(polygon, 0) {
    GPoly g = genPoly(c); Rng& r = c.rng; int n = (int)g.ring.size();
    std::vector<Point> before = g.pts; std::vector<int> idx0 = g.idx;
    Polygon p(g.idx, g.pts);
    Polygon early(p);                                         // copied before anything is computed
    if (r.p(0.5)) { p.getCentroid(g.pts); if (r.p(0.5)) p.getDiameter(g.pts); }
    measures(c, p, g.pts, g.ring, "new polygon");
    measures(c, p, g.pts, g.ring, "asked again");
    measures(c, early, g.pts, g.ring, "early copy");
    Polygon late(p); measures(c, late, g.pts, g.ring, "late copy");
    Region reg(p, g.pts), direct; std::vector<Point> rp = toPts(g.ring); direct = Region(rp);
    membership(c, p, g.pts, g.ring, g.idx, g.size, r.p(0.5) ? &reg : &direct);
    { std::vector<Point> a = reg.getRegionPoints(), b = direct.getRegionPoints(); bool same = a.size() == n && b.size() == n; for (int k = 0; same && k < n; k++) same = toP2(a[k]).x == g.ring[k].x && toP2(a[k]).y == g.ring[k].y && toP2(b[k]).x == g.ring[k].x && toP2(b[k]).y == g.ring[k].y; c.check(same, "region-points", "a region has other points than it was made of");
      measures(c, reg, rp, g.ring, "region of a polygon"); measures(c, direct, rp, g.ring, "region");
      BoundingBox bb = reg.getBox(); P2 lo, hi; bbox(g.ring, lo, hi); c.check(bb.xMin() == lo.x && bb.xMax() == hi.x && bb.yMin() == lo.y && bb.yMax() == hi.y, "region-box", "bounding box of the region"); }
    // vertices and sides
    c.check(p.getPoints() == g.idx, "indexes", "the polygon changed its indexes");
    { std::vector<Point> v = p.getPoints(g.pts); bool ok = (int)v.size() == n; for (int k = 0; ok && k < n; k++) ok = v[k].getX() == g.ring[k].x && v[k].getY() == g.ring[k].y; c.check(ok, "getpoints", "the points of the polygon are other ones"); }
    std::vector<IndexSegment> segs; p.getSegments(segs); c.check((int)segs.size() == n, "segments", "%zu sides", segs.size());
    for (int k = 0; k < n; k++) c.check(segs[k].getFirst() == g.idx[k] && segs[k].getSecond() == g.idx[(k + 1) % n], "segments", "side %d is %d-%d", k, segs[k].getFirst(), segs[k].getSecond());
    for (int i = 0; i < (int)g.pts.size(); i++) {
        auto it = std::find(g.idx.begin(), g.idx.end(), i); bool isv = it != g.idx.end();
        c.check(p.isVertex(i) == isv, "isvertex", "isVertex(%d)", i);
        for (int q = 0; q < 3; q++) { int j = r.p(0.5) ? r.pick(g.idx) : r.i(0, (int)g.pts.size() - 1); if (i == j) continue; auto jt = std::find(g.idx.begin(), g.idx.end(), j);
            bool want = false; if (isv && jt != g.idx.end()) { int a = it - g.idx.begin(), b = jt - g.idx.begin(); want = (a + 1) % n == b || (b + 1) % n == a; }
            IndexSegment s(i, j); c.check(p.containsEdge(s) == want, "containsedge", "containsEdge(%d-%d) is %d", i, j, (int)p.containsEdge(s)); }
    }
    std::string str = strf("%d", n); for (int i : g.idx) str += strf(" %d", i); c.check(p.getString() == str, "string", "%s instead of %s", p.getString().c_str(), str.c_str());
    { // equality does not depend on where the list of vertices starts
        std::vector<int> rot = g.idx; std::rotate(rot.begin(), rot.begin() + r.i(0, n - 1), rot.end()); if (r.p(0.5)) std::reverse(rot.begin(), rot.end());
        Polygon q(rot, g.pts); c.check(p == q && q == p, "equal", "the same polygon listed from another vertex is different"); c.check(!(p < q) && !(q < p), "less-polygon", "a polygon is less than itself listed from another vertex"); std::vector<int> fewer(g.idx.begin(), g.idx.end() - 1); if (fewer.size() >= 3) { Polygon z(fewer, g.pts); c.check(!(p < z && z < p) && (p == z) == (!(p < z) && !(z < p)), "less-polygon", "order of polygons"); } }
    // orientation
    std::vector<int> fixed = g.idx; if (g.cw) std::reverse(fixed.begin(), fixed.end());
    Polygon fresh(g.idx, g.pts); fresh.fixCCW(g.pts); if (r.p(0.3)) fresh.fixCCW(g.pts);   // before anything is computed
    p.fixCCW(g.pts); Ring fr = g.cw ? reversed(g.ring) : g.ring;
    measures(c, fresh, g.pts, fr, "fixCCW of a new polygon"); c.check(fresh.getPoints() == fixed, "fixccw", "fixCCW of a new polygon: wrong order of vertices");
    c.check(p.getPoints() == fixed, "fixccw", "fixCCW: wrong order of vertices");
    measures(c, p, g.pts, fr, "after fixCCW"); c.check(!p.isClockwise(g.pts), "fixccw", "clockwise after fixCCW");
    c.check(late.getPoints() == g.idx, "copy", "a copy changed with the original");
    { // the same shape much smaller or larger: measures do not depend on the tolerance
        double f = std::pow(10.0, r.u(-6, 5)); Ring t = transform(g.ring, f, 0, 0); std::vector<Point> tp; for (auto& q : g.pts) tp.push_back(Point(q.getX() * f, q.getY() * f)); Polygon z(g.idx, tp); std::string keep = c.desc; c.desc = strf("scaled by %.17g: ", f) + c.desc; measures(c, z, tp, t, "scaled polygon"); c.desc = keep; c.count("scaled_polygons"); }
    // another polygon in the same object
    GPoly g2 = genPoly(c); std::vector<Point> np = toPts(g2.ring); std::string first = c.desc; c.desc = first + " (mutated from another polygon)";
    if (g2.size == g.size || g.size != 1) { p.mutate(np); c.check((int)p.getPoints().size() == (int)np.size(), "mutate", "number of vertices"); for (size_t k = 0; k < np.size(); k++) c.check(p.getPoints()[k] == (int)k, "mutate", "indexes"); measures(c, p, np, g2.ring, "after mutate");
        direct.mutate(np); measures(c, direct, np, g2.ring, "region after mutate"); std::vector<Point> b = direct.getRegionPoints(); c.check(b.size() == np.size(), "region-mutate", "points of a mutated region");
        Region rc(direct); measures(c, rc, np, g2.ring, "copied region"); }
    for (size_t k = 0; k < before.size(); k++) c.check(before[k].getX() == g.pts[k].getX() && before[k].getY() == g.pts[k].getY(), "input-changed", "the list of points was changed");
    { // areas of point lists
        std::vector<Point> q = toPts(g.ring); Facts f = facts(g.ring); LD m = mag(g.ring) + 1; c.check(std::fabs(geometry_functions::area(q) - f.area) <= 1e-12L * m * m * n, "area-points", "area of the points"); c.check(std::fabs(geometry_functions::area(g.pts, g.idx) - f.area) <= 1e-12L * m * m * n, "area-index", "area of the indexed points"); }
    c.count("vertices", n); c.count("clockwise", g.cw); c.mark(ringHash(g.ring)); if (c.samples.size() < 2) c.samples.push_back(first.substr(0, 700));
}
SUITE(triangle, 0) {
    Rng& r = c.rng; double size = r.pick(std::vector<double>{0.01, 1, 10, 1000}); P2 off = {r.p(0.5) ? 0 : r.u(-10, 10) * size, r.p(0.5) ? 0 : r.u(-10, 10) * size};
    Ring g; for (;;) { g = {{off.x + size * r.u(), off.y + size * r.u()}, {off.x + size * r.u(), off.y + size * r.u()}, {off.x + size * r.u(), off.y + size * r.u()}}; if (ringMinAngle(g) > 3 && std::fabs(ringArea(g)) > 1e-4 * size * size) break; }
    int extra = r.i(0, 5); std::vector<Point> pts; for (int k = 0; k < extra; k++) pts.push_back(Point(r.u(), r.u())); std::vector<int> idx; for (auto& q : g) { idx.push_back((int)pts.size()); pts.push_back(toPt(q)); }
    c.desc = ringStr(g);
    Triangle t(idx, pts); UniqueList<Point> ul; std::vector<Point> vl; Point dummy(1e6, 1e6); for (int k = r.i(0, 2); k > 0; k--) { Point d2(1e6 + k, 1e6); ul.push_back(d2); vl.push_back(d2); }
    Triangle t2(idx, pts, ul), t3(idx, pts, vl), none; Triangle copy(t2);
    Point cc = t.getCircumcenter(); LD R = dist(toP2(cc), g[0]);
    for (auto& q : g) c.check(std::fabs(dist(toP2(cc), q) - R) <= 1e-9L * R + 1e-12L * (mag(g) + 1) * (mag(g) + 1) / size, "circumcenter", "the circumcentre (%.17g,%.17g) is at distance %.17Lg and %.17Lg of two vertices", cc.getX(), cc.getY(), dist(toP2(cc), q), R);
    c.check(toP2(t2.getCircumcenter()).x == cc.getX() && toP2(copy.getCircumcenter()).y == cc.getY(), "circumcenter-copy", "circumcentre of a copy");
    c.check(ul.size() - 1 == t2.getCircumcenterIndex() && copy.getCircumcenterIndex() == t2.getCircumcenterIndex() && toP2(ul[t2.getCircumcenterIndex()]).x == cc.getX(), "circumcenter-index", "index in the list of distinct circumcentres");
    c.check((int)vl.size() - 1 == t3.getCircumcenterIndex() && vl.back().getX() == cc.getX(), "circumcenter-index", "index in the list of circumcentres");
    c.check(none.isNull() && !t.isNull(), "isnull", "isNull");
    std::unordered_map<Key, int, KeyHasher> em; for (int k = 0; k < 3; k++) em.insert({Key(idx[k], idx[(k + 1) % 3]), 10 + k});
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) {
        int third = 3 - a - b; EdgeData e(idx[a], idx[b]); c.check(t.thirdPoint(e) == idx[third], "thirdpoint", "third point of edge %d-%d", a, b);
        int want = -1; for (int k = 0; k < 3; k++) if ((idx[k] == idx[a] && idx[(k + 1) % 3] == idx[third]) || (idx[k] == idx[third] && idx[(k + 1) % 3] == idx[a])) want = 10 + k;
        c.check(t.nextEdge(idx[a], e, em) == want, "nextedge", "next edge around %d from edge %d-%d", a, a, b); }
    measures(c, t, pts, g, "triangle");
    c.mark(ringHash(g)); if (c.samples.size() < 2) c.samples.push_back(c.desc);
}
SUITE(boundingbox, 0) {
    Rng& r = c.rng; Point a(r.u(-50, 50), r.u(-50, 50)), b(r.u(-50, 50), r.u(-50, 50)); if (r.p(0.1)) b.setX(a.getX()); c.desc = ptStr(toP2(a)) + ptStr(toP2(b));
    double x0 = std::min(a.getX(), b.getX()), x1 = std::max(a.getX(), b.getX()), y0 = std::min(a.getY(), b.getY()), y1 = std::max(a.getY(), b.getY());
    BoundingBox B(a, b), C(b, a);
    for (BoundingBox* q : {&B, &C}) {
        c.check(q->xMin() == x0 && q->xMax() == x1 && q->yMin() == y0 && q->yMax() == y1, "limits", "limits of the box");
        c.check(std::fabs(q->getWidth() - (x1 - x0)) <= 1e-12 && std::fabs(q->getHeight() - (y1 - y0)) <= 1e-12, "extent", "width or height of the box");
        for (int k = 0; k < 10; k++) { Point p(r.p(0.2) ? x0 : r.p(0.2) ? x1 : r.u(-60, 60), r.p(0.2) ? y0 : r.p(0.2) ? y1 : r.u(-60, 60)); bool w = p.getX() >= x0 && p.getX() <= x1 && p.getY() >= y0 && p.getY() <= y1; c.check(q->contains(p) == w, "contains", "contains(%s)", ptStr(toP2(p)).c_str()); c.count(w ? "inside" : "outside"); }
        std::vector<PointSegment> s; q->getSegments(s); c.check(s.size() == 4, "sides", "%zu sides", s.size());
        std::set<std::pair<double, double>> corners; for (int k = 0; k < 4; k++) { Point e = s[k].getSecond(), f = s[(k + 1) % 4].getFirst(); c.check(e.getX() == f.getX() && e.getY() == f.getY(), "sides", "the sides do not follow each other"); corners.insert({e.getX(), e.getY()}); }
        c.check(corners == std::set<std::pair<double, double>>({{x0, y0}, {x0, y1}, {x1, y0}, {x1, y1}}), "sides", "the sides do not visit the corners");
    }
    Point d(a.getX() + 1, a.getY()); c.check(B == C && B == BoundingBox(a, b) && !(B == BoundingBox(d, b)) && !(B == BoundingBox(b, d)) && !(B == BoundingBox(a, Point(b.getX() + 1, b.getY()))) && !(B == BoundingBox(Point(b.getX() + 1, b.getY()), a)), "equal", "equality of boxes");
    c.mark(hashd(hashd(1, a.getX()), b.getY())); if (c.samples.size() < 2) c.samples.push_back(c.desc);
}
SUITE(segments, 0) {
    Rng& r = c.rng; double size = r.pick(std::vector<double>{1, 10, 10, 100, 1000}); double tol = DelynoiConfig::instance()->getTolerance(); if (size == 1 && r.p(0.5)) DelynoiConfig::instance()->setTolerance(tol = 1e-8);
    bool lattice = r.p(0.4);
    auto pt = [&]() { return lattice ? P2{size * r.i(-5, 5) / 5.0, size * r.i(-5, 5) / 5.0} : P2{r.u(-size, size), r.u(-size, size)}; };
    P2 p[4]; std::vector<Point> pts;
    do { for (auto& q : p) q = pt(); if (r.p(0.15)) p[2] = p[r.i(0, 1)]; if (r.p(0.15)) { double t = r.u(0.2, 0.8); p[2] = P2{p[0].x + t * (p[1].x - p[0].x), p[0].y + t * (p[1].y - p[0].y)}; }
         if (r.p(0.1)) { if (r.p(0.5)) p[1].x = p[0].x; else p[1].y = p[0].y; }
         if (r.p(0.12)) { // just short of the other segment, or just beyond its end
             double t = r.u(-0.3, 1.3), e = std::pow(10.0, r.u(-7, -1)) * size; LD l = dist(p[0], p[1]); if (l > 0) { P2 d = {(double)((p[1].x - p[0].x) / l), (double)((p[1].y - p[0].y) / l)}; p[2] = P2{p[0].x + t * (p[1].x - p[0].x) - e * d.y, p[0].y + t * (p[1].y - p[0].y) + e * d.x}; double an = r.u(0.2, 2.9), q = r.u(0.1, 1) * size; p[3] = P2{p[2].x + q * (d.x * cos(an) - d.y * sin(an)), p[2].y + q * (d.x * sin(an) + d.y * cos(an))}; } }
         if (r.p(0.15)) { P2 d = {p[1].x - p[0].x, p[1].y - p[0].y}; double k = r.p(0.5) ? 1 : r.u(-2, 2); p[3] = P2{p[2].x + k * d.x, p[2].y + k * d.y}; } } while (dist(p[0], p[1]) < 0.05 * size || dist(p[2], p[3]) < 0.05 * size);
    int shift = r.i(0, 3); for (int k = 0; k < shift; k++) pts.push_back(Point(r.u(), r.u())); for (auto& q : p) pts.push_back(toPt(q));
    IndexSegment s(shift, shift + 1), o(shift + 2, shift + 3); PointSegment ps(toPt(p[0]), toPt(p[1])), po(toPt(p[2]), toPt(p[3]));
    c.desc = ptStr(p[0]) + "-" + ptStr(p[1]) + " and " + ptStr(p[2]) + "-" + ptStr(p[3]); LD L = dist(p[0], p[1]);
    // intersection
    LD D = ((LD)p[1].x - p[0].x) * ((LD)p[3].y - p[2].y) - ((LD)p[1].y - p[0].y) * ((LD)p[3].x - p[2].x);
    LD sep = segSegDist(p[0], p[1], p[2], p[3]); Point inter(-1e9, -1e9), inter2(-1e9, -1e9); bool got = s.intersection(pts, o, inter), got2 = s.intersection(pts, po, inter2), got3; { Point x; got3 = o.intersection(pts, s, x); c.check(x.isValid() == got3, "point-valid", got3 ? "the intersection handed out is an empty point" : "a point without an intersection is no longer empty"); }
    c.check(got == got2, "intersection-forms", "the two forms of intersection disagree");
    bool parallel = std::fabs(D) < 1e-9L * L * dist(p[2], p[3]);
    // the parameters are compared with the tolerance: a gap of tolerance times the lengths is not decided
    LD sine = std::fabs(D) / (L * dist(p[2], p[3]));
    LD slack = 3 * tol * (L + dist(p[2], p[3])) + 1e-9L * size;
    if (!parallel) {
        if (sep == 0 || sep < 1e-13L * size) { c.count("meeting_pairs"); c.check(got && got3, "intersection-missed", "crossing segments are reported apart");
            if (sine > 1e-3L) { P2 q = toP2(inter), q2 = toP2(inter2); c.check(distSeg(q, p[0], p[1]) <= slack / sine && distSeg(q, p[2], p[3]) <= slack / sine && dist(q, q2) <= 1e-9L * size, "intersection-point", "the intersection %s is not on both segments", ptStr(q).c_str()); } }
        else if (sep > slack) { c.count("separate_pairs"); c.check(!got && !got3, "intersection-false", "segments at distance %.3Lg are reported to intersect", sep); }
    } else if (sep > slack && std::fabs(orient(p[0], p[1], p[2])) > 1e-3L * size * L && D == 0) { c.count("parallel_pairs"); c.check(!got && !got3, "intersection-parallel", "parallel segments at distance %.3Lg are reported to intersect", sep); }
    // containment
    for (int k = 0; k < 12; k++) {
        double t = r.p(0.15) ? 0 : r.p(0.15) ? 1 : r.u(); P2 q = {p[0].x + t * (p[1].x - p[0].x), p[0].y + t * (p[1].y - p[0].y)}; bool want = true;
        if (k % 3 == 1) { double least = 4 * tol / size + 1e-12, e = (r.p(0.5) ? r.u(0.001, 0.5) : std::pow(10.0, r.u(std::log10(least), -0.3))) * size; int w = r.i(0, 1); P2 dir = {(double)((p[1].x - p[0].x) / L), (double)((p[1].y - p[0].y) / L)}; q = w ? P2{p[1].x + e * dir.x, p[1].y + e * dir.y} : P2{p[0].x - e * dir.x, p[0].y - e * dir.y}; want = false; }
        if (k % 3 == 2) { double least = 4 * tol / (double)L + 1e-11 * size, e = (r.p(0.5) ? 1 : -1) * (r.p(0.5) ? size * std::pow(10.0, -r.u(0, 3)) : std::pow(10.0, r.u(std::log10(least), std::log10(size)))); P2 nrm = {(double)((p[1].y - p[0].y) / L), (double)(-(p[1].x - p[0].x) / L)}; q = P2{q.x + e * nrm.x, q.y + e * nrm.y}; want = false; if (std::fabs(e) * L < 4 * tol) continue; }
        Point lq = toPt(q); c.count(want ? "contained" : "not_contained");
        c.check(s.contains(pts, lq) == want && ps.contains(lq) == want, "contains", "contains(%s) is %d, should be %d", ptStr(q).c_str(), (int)s.contains(pts, lq), want);
    }
    { P2 a = {p[0].x + 0.25 * (p[1].x - p[0].x), p[0].y + 0.25 * (p[1].y - p[0].y)}, b = {p[0].x + 0.75 * (p[1].x - p[0].x), p[0].y + 0.75 * (p[1].y - p[0].y)}; std::vector<Point> q = pts; q.push_back(toPt(a)); q.push_back(toPt(b)); IndexSegment in((int)q.size() - 2, (int)q.size() - 1), half(shift, (int)q.size() - 1);
      c.check(s.contains(q, in) && s.contains(q, half) && in.isContained(ps, q) && half.isContained(ps, q), "contains-segment", "part of a segment is not contained in it");
      c.check(!in.contains(q, s) && !half.contains(q, s) && !s.isContained(PointSegment(toPt(a), toPt(b)), q), "contains-segment", "a segment is contained in a part of it");
      IndexSegment turned(s.getSecond(), s.getFirst()); c.check(!half.contains(q, turned) && !in.contains(q, turned) && !turned.isContained(PointSegment(toPt(p[0]), toPt(b)), q) && !s.isContained(PointSegment(toPt(p[0]), toPt(b)), q) && !s.isContained(PointSegment(toPt(a), toPt(p[1])), q) && !turned.isContained(PointSegment(toPt(a), toPt(p[1])), q), "contains-segment", "a segment of which one end is outside is contained"); }
    // measures
    c.check(std::fabs(s.length(pts) - L) <= 1e-12L * size && std::fabs(ps.length() - L) <= 1e-12L * size, "length", "length %.17g, should be %.17Lg", s.length(pts), L);
    Point m = s.middlePoint(pts); c.check(std::fabs(m.getX() - ((LD)p[0].x + p[1].x) / 2) <= 1e-12L * size && std::fabs(m.getY() - ((LD)p[0].y + p[1].y) / 2) <= 1e-12L * size, "middle", "middle point");
    LD ang = std::atan2((LD)p[1].y - p[0].y, (LD)p[1].x - p[0].x) * 180 / (LD)M_PIl; double g1 = s.cartesianAngle(pts), g2 = ps.cartesianAngle(); LD df = std::fabs(std::remainder(g1 - ang, 360.0L)); c.check(df < 1e-9L && g1 == g2 && g1 >= 0 && g1 <= 360, "angle", "angle %.17g, should be %.17Lg modulo 360", g1, ang);
    LD orr = orient(p[0], p[1], p[2]); if (std::fabs(orr) > 1e-9L * size * size) { c.check(s.isCCW(pts, toPt(p[2])) == (orr > 0), "isccw", "isCCW"); IndexSegment z(s); z.orderCCW(pts, toPt(p[2])); c.check(z.isCCW(pts, toPt(p[2])) && z == s && (orr > 0) == (z.getFirst() == s.getFirst()), "orderccw", "orderCCW");
      c.check((delynoi_utilities::orientation(toPt(p[0]), toPt(p[1]), toPt(p[2])) > 0) == (orr > 0), "orientation", "orientation"); c.check(std::fabs(geometry_functions::area2(toPt(p[0]), toPt(p[1]), toPt(p[2])) - orr) <= 1e-11L * size * size && std::fabs(geometry_functions::triangleArea(toPt(p[0]), toPt(p[1]), toPt(p[2])) - orr / 2) <= 1e-11L * size * size, "area2", "area of three points"); }
    if (std::fabs(orr) > 2 * tol) c.check(!geometry_functions::collinear(toPt(p[0]), toPt(p[1]), toPt(p[2])), "collinear", "collinear"); else if (std::fabs(orr) < 0.5 * tol) c.check(geometry_functions::collinear(toPt(p[0]), toPt(p[1]), toPt(p[2])), "collinear", "not collinear");
    LD or4 = orient(p[0], p[1], p[3]); PointSegment other(toPt(p[2]), toPt(p[3])); if (std::fabs(orr) > 2 * tol || std::fabs(or4) > 2 * tol) c.check(!geometry_functions::collinear(ps, other), "collinear-segments", "collinear"); else if (std::fabs(orr) < 0.5 * tol && std::fabs(or4) < 0.5 * tol) { c.check(geometry_functions::collinear(ps, other), "collinear-segments", "not collinear"); c.count("collinear_segments"); }
    // vertices, equality, displacement
    c.check(s.isVertex(shift) && s.isVertex(shift + 1) && !s.isVertex(shift + 2) && ps.isVertex(toPt(p[0])) && ps.isVertex(toPt(p[1])), "isvertex", "isVertex");
    P2 away = {p[0].x + 3 * size, p[0].y}; c.check(!ps.isVertex(toPt(away)), "isvertex", "isVertex of another point");
    c.check(ps == PointSegment(toPt(p[1]), toPt(p[0])) && ps == ps && !(ps == PointSegment(toPt(p[0]), toPt(away))), "equal", "equality of segments");
    int k = r.i(-3, 1000); IndexSegment d = s.add(k); c.check(d.getFirst() == shift + k && d.getSecond() == shift + 1 + k && s.getFirst() == shift, "add", "displaced segment"); c.check(d.getString() == strf("%d %d", shift + k, shift + 1 + k), "string", "string of a segment");
    { int a = r.i(0, 5), b = r.i(0, 5), e = r.i(0, 5), f = r.i(0, 5); c.check((IndexSegment(a, b) < IndexSegment(e, f)) == (std::make_pair(a, b) < std::make_pair(e, f)), "less", "order of segments"); }
    // points
    Point A = toPt(p[0]), B = toPt(p[1]), df2 = A - B; c.check(df2.getX() == p[0].x - p[1].x && df2.getY() == p[0].y - p[1].y, "point-minus", "difference of points"); LD n2 = (LD)p[0].x * p[0].x + (LD)p[0].y * p[0].y;
    c.check(std::fabs(A.squareNorm() - n2) <= 1e-12L * size * size && std::fabs(delynoi_utilities::squareNorm(A) - n2) <= 1e-12L * size * size && std::fabs(delynoi_utilities::norm(A) - std::sqrt(n2)) <= 1e-12L * size, "norm", "norm");
    c.check(std::fabs(delynoi_utilities::crossProduct(A, B) - ((LD)p[0].x * p[1].y - (LD)p[0].y * p[1].x)) <= 1e-11L * size * size, "cross", "cross product");
    P2 nearp = {p[0].x + 0.3 * tol, p[0].y - 0.3 * tol}, far = {p[0].x + (r.p(0.5) ? 3 : -3) * tol, p[0].y}, far2 = {p[0].x + 0.3 * tol, p[0].y + (r.p(0.5) ? 3 : -3) * tol};
    c.check(A == toPt(nearp) && !(A < toPt(nearp)) && !(toPt(nearp) < A), "point-equal", "points closer than the tolerance are different");
    for (P2 q : {far, far2}) { bool less = std::fabs(q.x - p[0].x) > tol ? p[0].x < q.x : p[0].y < q.y; c.check(!(A == toPt(q)) && (A < toPt(q)) == less && (toPt(q) < A) == !less, "point-less", "points further than the tolerance are equal or misordered"); }
    Point empty, set(A); c.check(!empty.isValid() && A.isValid() && !A.isInBoundary(), "point-valid", "validity of points"); set.setBoundary(); Point cp(set); c.check(cp.isInBoundary() && !A.isInBoundary(), "point-boundary", "boundary flag of points"); set.setX(3); set.setY(4); empty.setX(1); c.check(empty.isValid() && set.isValid(), "point-valid", "a point whose coordinates were set is empty"); c.check(set.getX() == 3 && set.getY() == 4 && cp.getX() == p[0].x, "point-set", "setX or setY");
    uint64_t h = 1; for (auto& q : p) h = hashd(hashd(h, q.x), q.y); c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc);
}
// triangulations of one polygon
static void tiles(Ctx& c, const std::vector<Triangle>& tr, const std::vector<Point>& pts, const Ring& ring, const std::set<int>& allowed, size_t want, const char* what, int sign) {
    LD total = 0; std::map<std::pair<int, int>, int> dir;
    c.check(tr.size() == want, "count", "%s gives %zu triangles, should give %zu", what, tr.size(), want);
    LD eps = 1e-12L * (mag(ring) + 1);
    for (auto& t : tr) {
        std::vector<int> v = t.getPoints(); c.check(v.size() == 3, "triangle", "%s: an element with %zu vertices", what, v.size());
        for (int i : v) c.check(allowed.count(i), "vertex", "%s: vertex %d is not one of the polygon's", what, i);
        Ring g = {toP2(pts[v[0]]), toP2(pts[v[1]]), toP2(pts[v[2]])}; LD a = ringArea(g); total += std::fabs(a);
        c.check(v[0] != v[1] && v[1] != v[2] && v[2] != v[0], "triangle", "%s: a triangle repeats a vertex", what);
        // vertices in line up to rounding may give a sliver, as nobody can tell on which side they turn
        bool sliver = std::fabs(a) <= 1e-13L * (mag(ring) + 1) * (mag(ring) + 1);
        if (sliver) { c.count("slivers"); c.check(!(g[0].x == g[1].x && g[1].x == g[2].x) && !(g[0].y == g[1].y && g[1].y == g[2].y), "degenerate", "%s: a triangle has no area", what); }
        if (sign && !sliver) c.check(a * sign > 0, "orientation", "%s: a triangle with signed area %.6Lg", what, a);
        if (sliver ? sign < 0 : a < 0) std::swap(v[1], v[2]);
        for (int k = 0; k < 3; k++) c.check(++dir[{v[k], v[(k + 1) % 3]}] == 1, "overlap", "%s: two triangles on the same side of an edge", what);
        // the centre and the edge midpoints are in the polygon
        P2 ctr = {(g[0].x + g[1].x + g[2].x) / 3, (g[0].y + g[1].y + g[2].y) / 3}; c.check(ringContains(ring, ctr) || ringBoundaryDist(ring, ctr) <= eps, "outside", "%s: a triangle outside the polygon", what);
        for (int k = 0; k < 3; k++) { P2 m = {(g[k].x + g[(k + 1) % 3].x) / 2, (g[k].y + g[(k + 1) % 3].y) / 2}; c.check(ringContains(ring, m) || ringBoundaryDist(ring, m) <= eps, "outside", "%s: an edge outside the polygon", what); }
    }
    LD A = std::fabs(ringArea(ring)); c.check(std::fabs(total - A) <= 1e-11L * (A + (mag(ring) + 1) * (mag(ring) + 1)), "area", "%s: the areas add up to %.15Lg, the polygon has %.15Lg", what, total, A);
    c.count("triangles", tr.size());
}
SUITE(triangulators, 0) {
    GPoly g = genPoly(c); Rng& r = c.rng; int n = (int)g.ring.size(); Polygon p(g.idx, g.pts); std::set<int> own(g.idx.begin(), g.idx.end()); std::vector<Point> before = g.pts;
    auto untouched = [&](size_t extra) { bool ok = g.pts.size() == before.size() + extra; for (size_t k = 0; ok && k < before.size(); k++) ok = g.pts[k].getX() == before[k].getX() && g.pts[k].getY() == before[k].getY(); c.check(ok && p.getPoints() == g.idx, "input-changed", "the polygon or its points changed"); };
    int which = r.i(0, 3); int sign = g.cw ? -1 : 1;
    if (which == 0 || which == 3) {
        EarTriangulationGenerator e; std::vector<Triangle> t = e.triangulate(p, g.pts); tiles(c, t, g.pts, g.ring, own, n - 2, "ear clipping", sign); untouched(0); c.count("ear"); }
    if (which == 1 || which == 3) {
        DelaunayTriangulationGenerator d; std::vector<Triangle> t = d.triangulate(p, g.pts); tiles(c, t, g.pts, g.ring, own, n - 2, "Delaunay triangulation", 0); untouched(0); c.count("delaunay");
        std::map<std::pair<int, int>, std::vector<int>> e; for (size_t k = 0; k < t.size(); k++) { std::vector<int> v = t[k].getPoints(); for (int q = 0; q < 3; q++) e[{std::min(v[q], v[(q + 1) % 3]), std::max(v[q], v[(q + 1) % 3])}].push_back(v[(q + 2) % 3]); }
        for (auto& kv : e) if (kv.second.size() == 2) { auto ap = [&](int w) { P2 u = toP2(g.pts[kv.first.first]), v = toP2(g.pts[kv.first.second]), x = toP2(g.pts[w]); LD ax = (LD)u.x - x.x, ay = (LD)u.y - x.y, bx = (LD)v.x - x.x, by = (LD)v.y - x.y; return std::atan2(std::fabs(ax * by - ay * bx), ax * bx + ay * by); };
            c.check(ap(kv.second[0]) + ap(kv.second[1]) <= (LD)M_PI + 1e-6L, "not-delaunay", "an inner edge is not Delaunay"); c.count("delaunay_edges"); } }
    if (which == 2) {
        int cv = convexity(g.ring); CenterTriangulationGenerator e; if (!cv) { c.count("center_undecided"); return; }
        bool threw = false; std::vector<Triangle> t; try { t = e.triangulate(p, g.pts); } catch (std::invalid_argument&) { threw = true; }
        c.check(threw == (cv < 0), "center-convex", "triangulating from the centre %s a polygon that is %sconvex", threw ? "rejects" : "accepts", cv < 0 ? "not " : "");
        if (!threw) { Facts f = facts(g.ring); c.check(g.pts.size() == before.size() + 1 && std::fabs(g.pts.back().getX() - f.ax) < 1e-9 * g.size && std::fabs(g.pts.back().getY() - f.ay) < 1e-9 * g.size, "center-point", "the centre is not the average of the vertices"); own.insert((int)before.size()); tiles(c, t, g.pts, g.ring, own, n, "centre triangulation", sign); untouched(1); c.count("center"); }
        else { untouched(0); c.count("center_rejected"); } }
    c.mark(ringHash(g.ring)); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 700));
}
SUITE(convexhull, 0) {
    Rng& r = c.rng; int kind = r.i(0, 6), n = r.p(0.3) ? r.i(2, 5) : r.p(0.02) ? r.i(60, 800) : r.i(2, c.thorough ? 200 : 60); double size = r.p(0.7) ? r.pick(std::vector<double>{1, 10, 1000}) : std::pow(10.0, r.u(-3, 6)); std::vector<P2> ps;
    for (int k = 0; k < n; k++) switch (kind) {
        case 0: ps.push_back(P2{r.u(-size, size), r.u(-size, size)}); break;
        case 1: ps.push_back(P2{size * r.i(-4, 4), size * r.i(-4, 4)}); break;
        case 2: { double t = 2 * M_PI * k / n; ps.push_back(P2{size * cos(t), size * sin(t)}); break; }
        case 3: ps.push_back(P2{size * r.i(0, 8), 0}); break;
        case 4: ps.push_back(P2{0, size * r.i(0, 8)}); break;
        case 5: { double t = r.u(0, 6.3), q = std::sqrt(r.u()); ps.push_back(P2{3 + size * q * cos(t), -7 + 0.1 * size * q * sin(t)}); break; }
        default: ps.push_back(P2{size * r.i(-8, 8) * 0.25, r.u(-size, size)}); break;
    }
    std::set<std::pair<double, double>> uniq; for (auto& p : ps) uniq.insert({p.x, p.y}); if (uniq.size() < 2) return;
    for (auto& p : ps) c.desc += ptStr(p);
    auto toV = [](const std::vector<P2>& v) { std::vector<Point> o; for (auto& q : v) o.push_back(toPt(q)); return o; };
    std::vector<Point> in = toV(ps), u, l; convex::convexHull(in, u, l);
    LD maxd = 0; for (auto& a : ps) for (auto& b : ps) maxd = std::max(maxd, dist(a, b));
    LD eps = 1e-12L * (size + 10) * (size + 10); P2 lo = {1e300, 0}, hi = {-1e300, 0};
    for (auto& p : ps) { if (p.x < lo.x || (p.x == lo.x && p.y < lo.y)) lo = p; if (p.x > hi.x || (p.x == hi.x && p.y > hi.y)) hi = p; }
    for (auto* ch : {&u, &l}) {
        bool up = ch == &u; const char* nm = up ? "upper" : "lower"; c.check(ch->size() >= 2, "chain", "the %s chain has %zu points", nm, ch->size());
        c.check(toP2((*ch)[0]).x == lo.x && toP2((*ch)[0]).y == lo.y && toP2(ch->back()).x == hi.x && toP2(ch->back()).y == hi.y, "chain-ends", "the %s chain does not go from the first to the last point", nm);
        for (auto& q : *ch) c.check(uniq.count({q.getX(), q.getY()}), "chain-point", "the %s chain has a point that was not given", nm);
        for (size_t k = 0; k + 1 < ch->size(); k++) for (auto& p : ps) { LD o = orient(toP2((*ch)[k]), toP2((*ch)[k + 1]), p); c.check(up ? o <= eps : o >= -eps, "hull", "point %s is outside the %s chain", ptStr(p).c_str(), nm); c.count("side_tests"); }
    }
    std::vector<Point> in2 = toV(ps); auto pairs = convex::rotatingCalipers(in2); LD best = 0;
    for (auto& q : pairs) { c.check(uniq.count({q.first.getX(), q.first.getY()}) && uniq.count({q.second.getX(), q.second.getY()}), "pair-point", "a pair has a point that was not given"); best = std::max(best, dist(toP2(q.first), toP2(q.second))); }
    c.check(std::fabs(best - maxd) <= 1e-12L * (size + 10), "diameter", "the pairs reach a distance of %.17Lg, the furthest points are %.17Lg apart", best, maxd);
    c.count("antipodal_pairs", pairs.size()); uint64_t h = 9; for (auto& p : ps) h = hashd(hashd(h, p.x), p.y); c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 500));
}

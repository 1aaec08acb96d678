// Hostile use: memory and undefined behaviour (C18, with the sanitizers), and invalid input (C23).
#include "dscene.h"
#include <unistd.h>
#include <memory>
#include <climits>

// ---- invalid input
static bool crosses(const Ring& g, double margin) {         // a proper crossing of two sides, by a margin
    size_t n = g.size();
    for (size_t i = 0; i < n; i++) for (size_t j = i + 2; j < n; j++) { if (i == 0 && j == n - 1) continue;
        const P2 &a = g[i], &b = g[(i + 1) % n], &p = g[j], &q = g[(j + 1) % n]; LD la = dist(a, b), lp = dist(p, q); if (la < margin || lp < margin) continue;
        LD o1 = orient(a, b, p) / la, o2 = orient(a, b, q) / la, o3 = orient(p, q, a) / lp, o4 = orient(p, q, b) / lp;
        if (o1 * o2 < 0 && o3 * o4 < 0 && std::min(std::min(std::fabs(o1), std::fabs(o2)), std::min(std::fabs(o3), std::fabs(o4))) > margin) return true; }
    return false;
}
template <class F> bool throwsInvalid(F f) { try { f(); } catch (std::invalid_argument&) { return true; } return false; }
template <class F> bool throwsRuntime(F f) { try { f(); } catch (std::runtime_error&) { return true; } return false; }
static const Ring BOW = {{0, 0}, {10, 10}, {10, 0}, {0, 10}};
SUITE(rejects, 3) {
    Rng& r = c.rng;
    if (c.idx < 3) {         // genuine defect: these constructors look for crossings before they have any points
        std::vector<Point> p = toPts(BOW); std::vector<int> i = {0, 1, 2, 3}; c.desc = "crossing outline " + ringStr(BOW);
        bool t = c.idx == 0 ? throwsInvalid([&]() { Region g(p); }) : c.idx == 1 ? throwsInvalid([&]() { Polygon g(p); }) : throwsInvalid([&]() { Polygon g(i, p); });
        c.check(t, c.idx == 0 ? "crossing_region_accepted" : c.idx == 1 ? "crossing_polygon_accepted" : "crossing_indexed_polygon_accepted", "an outline that crosses itself is accepted"); return;
    }
    int kind = r.i(0, 9); uint64_t h = kind;
    if (kind <= 5) {         // outlines
        RingOpts o; o.size = std::pow(10.0, r.u(0, 3)); o.maxN = r.p(0.1) ? 40 : 16; Ring g = genRing(r, o); if (r.p(0.4)) g = reversed(g); bool bad = g.size() > 3 && r.p(0.6);
        if (bad) { for (int t = r.i(1, 2); t > 0; t--) std::swap(g[r.i(0, (int)g.size() - 1)], g[r.i(0, (int)g.size() - 1)]); bad = crosses(g, 1e-3 * o.size); if (!bad) { c.count("undecided"); return; } }
        for (auto& p : g) h = hashd(hashd(h, p.x), p.y); c.desc = (bad ? "crossing " : "simple ") + ringStr(g);
        std::vector<Point> p = toPts(g), sq = toPts({{0, 0}, {1, 0}, {1, 1}, {0, 1}}); std::vector<int> idx; for (size_t k = 0; k < g.size(); k++) idx.push_back((int)k); int how = r.i(0, 3); bool t = false;
        std::vector<Point> all = p; Polygon src; if (how == 2) { std::vector<Point> pad; std::vector<int> at; std::vector<int> perm(idx); r.shuffle(perm); pad.resize(g.size() + 3, Point(-5, -7)); for (size_t k = 0; k < g.size(); k++) { pad[perm[k] + 2] = p[k]; at.push_back(perm[k] + 2); } all = pad; src = Polygon(at, all); }
        if (how == 0) { Polygon q(sq); t = throwsInvalid([&]() { q.mutate(p); }); }
        else if (how == 1) { Region q(sq); t = throwsInvalid([&]() { q.mutate(p); }); if (!bad) { std::vector<Point> got = q.getRegionPoints(); bool eq = got.size() == p.size(); for (size_t k = 0; eq && k < p.size(); k++) eq = got[k].getX() == p[k].getX() && got[k].getY() == p[k].getY(); c.check(eq, "mutated_points", "the region does not have the points it was given"); } }
        else if (how == 2) { std::unique_ptr<Region> q; t = throwsInvalid([&]() { q.reset(new Region(src, all)); }); if (!bad) { std::vector<Point> got = q ? q->getRegionPoints() : std::vector<Point>(); bool eq = got.size() == p.size(); for (size_t k = 0; eq && k < p.size(); k++) eq = got[k].getX() == p[k].getX() && got[k].getY() == p[k].getY(); c.check(t || eq, "region_of_polygon", "the region does not have the points of the polygon"); } }
        else { if (bad) { c.count("undecided"); return; } t = throwsInvalid([&]() { Region a(p); Polygon b(p); Polygon d(idx, p); PolygonalHole e(p); }); }
        c.check(t == bad, bad ? "crossing_accepted" : "simple_rejected", "%s by %s", bad ? "an outline that crosses itself is accepted" : "a simple outline is rejected", how == 0 ? "Polygon::mutate" : how == 1 ? "Region::mutate" : how == 2 ? "Region(polygon)" : "a constructor"); c.count(bad ? "crossing_outlines" : "simple_outlines"); c.mark(h); return;
    }
    if (kind == 6) {         // triangles
        for (int k = 0; k < 10; k++) { std::vector<int> v; int n = r.p(0.7) ? 3 : r.i(0, 6), top = r.p(0.5) ? 3 : 2000000000; for (int q = 0; q < n; q++) v.push_back(r.i(0, top)); std::vector<int> w = v; bool bad = n != 3 || v[0] == v[1] || v[1] == v[2] || v[0] == v[2]; for (int q : v) h = hashmix(h, q);
            bool t = throwsInvalid([&]() { delynoi_utilities::checkTriangleIntegrity(v); }); c.check(t == bad && v == w, "triangle_integrity", "%d vertices %d %d %d: %s", n, n ? v[0] : 0, n > 1 ? v[1] : 0, n > 2 ? v[2] : 0, t ? "rejected" : "accepted"); c.count(bad ? "bad_triangles" : "good_triangles"); }
        c.mark(h); return;
    }
    if (kind == 7) {         // one function for both coordinates
        std::unique_ptr<Functor> f(r.p(0.5) ? functions::constant() : functions::uniform(2)); functions::independent_variable v[] = {functions::independent_variable::x, functions::independent_variable::y, functions::independent_variable::both}; int k = r.i(0, 2);
        bool t = throwsInvalid([&]() { PointGenerator g(f.get(), v[k]); }); c.check(t == (k == 2), "one_function", "one function for %s is %s", k == 0 ? "x" : k == 1 ? "y" : "both", t ? "rejected" : "accepted"); c.count("generators"); c.mark(hashmix(h, k)); return;
    }
    if (kind == 8) {         // files that are not there
        std::string name = strf("absent_%d_%d", (int)getpid(), r.i(0, 1000000)); std::vector<Point> sq = toPts({{0, 0}, {1, 0}, {1, 1}, {0, 1}}), in = {Point(0.25, 0.5), Point(0.75, 0.25)}; Region g(sq); if (r.p(0.7)) g.addSeedPoints(in); std::vector<Point> before = g.getSeedPoints();
        c.check(throwsRuntime([&]() { g.addSeedsFromFile(name); }), "absent_seeds", "no runtime_error for seeds from a file that is not there"); std::vector<Point> after = g.getSeedPoints(); bool eq = before.size() == after.size(); for (size_t k = 0; eq && k < before.size(); k++) eq = before[k].getX() == after[k].getX() && before[k].getY() == after[k].getY(); c.check(eq, "absent_seeds", "the seeds of the region were changed");
        Mesh<Polygon> m; Mesh<Triangle> t; c.check(throwsRuntime([&]() { m.createFromFile(name, r.i(0, 1)); }) && throwsRuntime([&]() { t.createFromFile(name, r.i(0, 1)); }), "absent_mesh", "no runtime_error for a mesh from a file that is not there"); c.check(m.getPoints().size() == 0 && m.getPolygons().empty() && t.getPolygons().empty(), "absent_mesh", "the mesh was changed"); c.check(throwsRuntime([&]() { utilities::openFile(name); }), "absent_file", "no runtime_error"); delete m.getSegments(); delete m.getPointMap(); delete t.getSegments(); delete t.getPointMap(); c.count("absent_files"); c.mark(hashmix(h, std::hash<std::string>()(name))); return;
    }
    // triangulating a polygon that is not convex from its centre
    RingOpts o; o.size = std::pow(10.0, r.u(0, 2)); o.maxAngle = 181; Ring g = genRing(r, o); bool reflex = false; size_t n = g.size(); for (size_t k = 0; k < n; k++) { const P2 &a = g[k], &b = g[(k + 1) % n], &d = g[(k + 2) % n]; LD s = orient(a, b, d) / (dist(a, b) * dist(b, d)); if (s < -0.02L) reflex = true; }
    if (!reflex) { c.count("undecided"); return; } for (auto& p : g) h = hashd(hashd(h, p.x), p.y); if (r.p(0.4)) g = reversed(g); c.desc = "not convex " + ringStr(g); std::vector<Point> p = toPts(g); Polygon q(p); CenterTriangulationGenerator ct; c.check(throwsInvalid([&]() { ct.triangulate(q, p); }), "centre_not_convex", "a polygon that is not convex is triangulated from its centre"); c.check(p.size() == g.size(), "centre_not_convex", "the list of points was changed"); c.count("not_convex"); c.mark(h);
}

// ---- hostile use
static volatile double sinkd;
SUITE(tiny, 0) {             // seeds at and below the tolerance from each other and from the boundary: any mesh or exception will do
    SceneOpts so; so.repeats = true; so.size = c.rng.p(0.5) ? 10 : 1; double tol = std::pow(10.0, c.rng.u(-10, -4)); DelynoiConfig::instance()->setTolerance(tol * so.size);
    so.maxSeeds = 20; DScene o; o.s = genScene(c.rng, so); Rng& r = c.rng; std::vector<P2> in = o.s.input(); int extra = r.i(1, 8); tol *= so.size;
    for (int k = 0; k < extra; k++) { P2 q; int w = r.i(0, 2); if (w == 0 && !in.empty()) q = r.pick(in); else if (w == 1) q = r.pick(o.s.outer); else { int i = r.i(0, (int)o.s.outer.size() - 1); P2 a = o.s.outer[i], b = o.s.outer[(i + 1) % o.s.outer.size()]; double t = r.u(); q = P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; } double d = tol * std::pow(10.0, r.u(-1, 2)), an = r.u(0, 6.3); in.push_back(P2{q.x + d * cos(an), q.y + d * sin(an)}); }
    c.desc = o.s.desc + strf(" tolerance %g given ", tol) + ringStr(in); Region g = o.s.region(); std::vector<Point> seeds = toPts(in);
    try { int k = r.i(0, 2); if (k == 0) { TriangleVoronoiGenerator v(seeds, g); Mesh<Polygon> m = v.getMesh(); c.count("voronoi"); sinkd = m.getPolygons().size(); } else { TriangleDelaunayGenerator v(seeds, g); Mesh<Triangle> m = k == 1 ? v.getConstrainedDelaunayTriangulation() : v.getConformingDelaunayTriangulation(); c.count("delaunay"); sinkd = m.getPolygons().size(); } } catch (std::exception& e) { c.count(std::string("exception: ") + e.what()); }
    c.mark(o.s.hash());
}
SUITE(degenerate, 0) {       // outlines without area, with repeated points, spikes and pinches: any result or exception will do
    Rng& r = c.rng; double sc = std::pow(10.0, r.i(-3, 4)), dx = r.p(0.3) ? r.i(-9, 9) * sc : 0, dy = r.p(0.3) ? r.i(-9, 9) * sc : 0; int kind = r.i(0, 6); Ring g; const char* KN[] = {"on a line", "repeated points", "spikes", "one place", "pinched", "almost flat", "few points"};
    RingOpts o; o.size = 1; o.maxN = 12;
    switch (kind) {
        case 0: { int n = r.i(3, 9); P2 a = {r.u(), r.u()}, b = {r.u(), r.u()}; int w = r.i(0, 4); if (w == 0) b.y = a.y; else if (w == 1) b.x = a.x; else if (w == 2) { a = P2{0, 0}; b = P2{1, 1}; } for (int k = 0; k < n; k++) { double t = r.p(0.5) ? k : r.i(0, 5); g.push_back(P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); } break; }
        case 1: { Ring h = genRing(r, o); for (auto& p : h) for (int k = r.p(0.3) ? r.i(2, 3) : 1; k > 0; k--) g.push_back(p); break; }
        case 2: { Ring h = genRing(r, o); for (size_t k = 0; k < h.size(); k++) { g.push_back(h[k]); if (r.p(0.3)) { g.push_back(r.p(0.5) ? P2{r.u(-1, 2), r.u(-1, 2)} : r.pick(h)); g.push_back(h[k]); } } break; }
        case 3: { P2 a = {r.u(), r.u()}; for (int k = r.i(3, 6); k > 0; k--) g.push_back(a); break; }
        case 4: { Ring h = genRing(r, o), h2 = genRing(r, o); g = h; for (auto& p : h2) g.push_back(P2{p.x - h2[0].x + h[0].x, p.y - h2[0].y + h[0].y}); break; }
        case 5: { g = genRing(r, o); double f = std::pow(10.0, -r.i(6, 300)); for (auto& p : g) { p.y *= f; if (r.p(0.3)) p.y = 0; } break; }
        default: { for (int k = r.i(1, 3); k > 0; k--) g.push_back(P2{(double)r.i(0, 2), (double)r.i(0, 2)}); break; }
    }
    if (r.p(0.3)) g = reversed(g); uint64_t h = kind; for (auto& p : g) { p = P2{p.x * sc + dx, p.y * sc + dy}; h = hashd(hashd(h, p.x), p.y); } c.desc = std::string(KN[kind]) + " " + ringStr(g);
    std::vector<Point> p = toPts(g); std::vector<int> idx; for (size_t k = 0; k < p.size(); k++) idx.push_back((int)k); Point q = toPt(P2{r.u(-1, 2) * sc + dx, r.u(-1, 2) * sc + dy}); if (r.p(0.3)) q = r.pick(p);
    int ops = 0; auto tried = [&](const char* what, std::function<void()> f) { c.desc += std::string("; ") + what; try { f(); ops++; } catch (std::exception& e) { c.count(std::string(what) + ": exception"); } };
    std::vector<int> order; for (int k = 0; k < 13; k++) order.push_back(k); r.shuffle(order); order.resize(r.i(3, 13));
    for (int op : order) switch (op) {
        case 0: tried("measures", [&]() { Polygon a(p); sinkd = a.getArea(p) + a.signedArea(p) + a.getMaxDistance(p); if (p.size() > 1) sinkd = a.getDiameter(p); Point m = a.getCentroid(p), v = a.getAverage(p); sinkd = m.getX() + v.getX(); a.isConvex(p); a.isClockwise(p); a.fixCCW(p); Polygon b(a); b == a; }); break;
        case 1: tried("contains", [&]() { Polygon a(p); a.containsPoint(p, q); a.inEdges(p, q); a.containerEdge(p, q); IndexSegment s(0, (int)p.size() - 1); a.containsEdge(s); std::vector<IndexSegment> e; a.getSegments(e); a.isSelfIntersecting(p); }); break;
        case 2: tried("ears", [&]() { Polygon a(p); std::vector<Point> l = p; for (Triangle t : EarTriangulationGenerator().triangulate(a, l)) sinkd = t.getArea(l); }); break;
        case 3: tried("centre", [&]() { Polygon a(p); std::vector<Point> l = p; for (Triangle t : CenterTriangulationGenerator().triangulate(a, l)) sinkd = t.getArea(l); }); break;
        case 4: tried("hull", [&]() { std::vector<Point> l = p, u, w; convex::convexHull(l, u, w); l = p; for (auto& x : convex::rotatingCalipers(l)) sinkd = x.first.getX(); }); break;
        case 5: tried("region", [&]() { Region a(p); a.getBox(); a.containsPoint(q); std::vector<Point> s = {q, p[0]}; a.addSeedPoints(s); a.generateSeedPoints(PointGenerator(functions::constant(), functions::constant()), 3, 3); Region b(a); sinkd = b.getSeedPoints().size(); Polygon m(p); Region e(m, p); }); break;
        case 6: tried("hole", [&]() { PolygonalHole a(p); std::vector<Point> s = toPts({{-9 * sc + dx, -9 * sc + dy}, {9 * sc + dx, -9 * sc + dy}, {9 * sc + dx, 9 * sc + dy}, {-9 * sc + dx, 9 * sc + dy}}); Region b(s); b.addHole(a); Hole ha(a); ha.containsPoint(q); std::vector<Point> in = {q}; b.addSeedPoints(in); }); break;
        case 7: tried("hole in it", [&]() { Region b(p); CircularHole a(q, sc * r.u(0.01, 0.5)); b.addHole(a); }); break;
        case 8: tried("clipper", [&]() { std::vector<Point> s = toPts({{dx, dy}, {dx + sc, dy}, {dx, dy + sc}}); sinkd = (double)ClipperWrapper::polyIntersection(p, s, 100000).size() + ClipperWrapper::polyIntersection(s, p, 100000).size(); }); break;
        case 9: if (p.size() > 2) tried("triangle", [&]() { std::vector<int> v = {0, 1, 2}; Triangle t(v, p); sinkd = t.getArea(p) + t.getCircumcenter().getX(); t.containsPoint(p, q); t.getCentroid(p); t.getDiameter(p); }); break;
        case 10: tried("segments", [&]() { for (size_t k = 0; k < p.size(); k++) { PointSegment s(p[k], p[(k + 1) % p.size()]); IndexSegment t((int)k, (int)((k + 1) % p.size())); s.contains(q); sinkd = s.length() + s.cartesianAngle(); Point x; t.intersection(p, IndexSegment(0, (int)k), x); t.contains(p, q); sinkd = t.middlePoint(p).getX(); } }); break;
        case 11: tried("list", [&]() { UniqueList<Point> u; u.push_list(p); PointMap pm; for (auto& x : p) pm.insert(x, 1); sinkd = u.size(); for (auto& x : p) { u.indexOf(x); pm.get(x); } UniqueList<Point> w(u); w.delete_element(p[0]); }); break;
        default: tried("mesh of it", [&]() { Region a(p); if (kind != 1) return; std::vector<Point> s = {q}; if (r.p(0.5)) { TriangleVoronoiGenerator v(s, a); sinkd = v.getMesh().getPolygons().size(); } else { TriangleDelaunayGenerator v(s, a); sinkd = v.getConstrainedDelaunayTriangulation().getPolygons().size(); } }); break;
    }
    c.count(KN[kind]); c.count("operations", ops); c.mark(h);
}
SUITE(large, 0) {            // meshes of thousands of points
    Rng& r = c.rng; SceneOpts so; so.repeats = true; so.size = r.p(0.5) ? 10 : r.p(0.5) ? 100 : 1000; so.maxSeeds = c.thorough ? 12000 : 3000; so.sep = 3e-3; so.edgeSeeds = false; double tol = DelynoiConfig::instance()->getTolerance();
    Scene s = genScene(r, so); int n = r.i(c.thorough ? 2000 : 500, so.maxSeeds); s.seeds = genSeeds(r, s.dom, n, so.sep * so.size, so.sep * so.size * 0.5, r.p(0.7) ? 0 : r.i(0, 2)); s.onEdge.clear(); s.extra.clear(); c.desc = s.desc + strf(" and %zu seeds", s.seeds.size());
    std::vector<Point> seeds = toPts(s.seeds); Region g = s.region(); int k = r.i(0, 2); RMesh m; (void)tol;
    if (k == 0) { TriangleVoronoiGenerator v(seeds, g); Mesh<Polygon> q = v.getMesh(); m = readMesh(q); c.check(m.cells.size() >= s.seeds.size(), "cell-count", "%zu cells for %zu seeds", m.cells.size(), s.seeds.size()); checkSubdivision(c, m, s.dom, 1e-4, "Voronoi"); checkMaps(c, q.getSegments(), q.getPointMap(), m, s.dom, 1e-4, "Voronoi"); c.count("voronoi_meshes"); }
    else { TriangleDelaunayGenerator v(seeds, g); Mesh<Triangle> q = k == 1 ? v.getConstrainedDelaunayTriangulation() : v.getConformingDelaunayTriangulation(); m = readMesh(q); c.check(m.pts.size() >= s.seeds.size() + s.dom.edges(), "point-count", "%zu points for %zu seeds", m.pts.size(), s.seeds.size()); checkSubdivision(c, m, s.dom, 1e-7, "Delaunay"); checkMaps(c, q.getSegments(), q.getPointMap(), m, s.dom, 1e-7, "Delaunay"); c.count("delaunay_meshes"); }
    c.count("seeds", (long)s.seeds.size()); c.maxi("elements", (long)m.cells.size()); c.count("elements", (long)m.cells.size()); c.mark(hashmix(s.hash(), k)); if (c.samples.empty()) c.samples.push_back(strf("%zu seeds -> %zu elements, %zu points", s.seeds.size(), m.cells.size(), m.pts.size()));
}
SUITE(lifecycles, 0) {       // objects copied, assigned, moved around in containers and destroyed in any order, then used
    Rng& r = c.rng; SceneOpts so; so.maxSeeds = 12; Scene s = genScene(r, so); c.desc = s.desc; std::vector<Region> regs; std::vector<Mesh<Polygon>> vm; std::vector<Mesh<Triangle>> tm; std::vector<Polygon> polys; std::vector<std::vector<Point>> lists; std::vector<Hole> holes; std::vector<UniqueList<Point>> uniq; std::vector<SegmentMap> sms; std::vector<PointMap> pms; uint64_t h = s.hash();
    std::vector<Point> seeds; for (auto& p : s.all()) seeds.push_back(toPt(p)); int steps = r.i(5, 30); double area = (double)std::fabs(ringArea(s.outer));
    for (int k = 0; k < steps; k++) { int op = r.i(0, 15); h = hashmix(h, op);
        switch (op) {
        case 0: { std::unique_ptr<Region> g(new Region(s.region())); g->addSeedPoints(seeds); regs.push_back(*g); break; }
        case 1: if (!regs.empty()) { Region g(r.pick(regs)); regs.insert(regs.begin() + r.i(0, (int)regs.size()), g); } break;
        case 2: if (!regs.empty()) { Region& g = regs[r.i(0, (int)regs.size() - 1)]; g = regs[r.i(0, (int)regs.size() - 1)]; g = g; } break;
        case 3: if (!regs.empty()) regs.erase(regs.begin() + r.i(0, (int)regs.size() - 1)); break;
        case 4: if (!regs.empty()) { std::unique_ptr<Region> g(new Region(r.pick(regs))); std::vector<Point> sd = g->getSeedPoints(); std::unique_ptr<TriangleVoronoiGenerator> v(new TriangleVoronoiGenerator(sd, *g)); g.reset(); vm.push_back(v->getMesh()); if (r.p(0.5)) vm.push_back(v->getTriangulation()); v.reset(); } break;
        case 5: if (!regs.empty()) { std::unique_ptr<Region> g(new Region(r.pick(regs))); std::vector<Point> sd = g->getSeedPoints(); TriangleDelaunayGenerator v(sd, *g); g.reset(); tm.push_back(r.p(0.5) ? v.getConformingDelaunayTriangulation() : v.getConstrainedDelaunayTriangulation()); } break;
        case 6: if (!vm.empty()) { vm.push_back(Mesh<Polygon>(vm[r.i(0, (int)vm.size() - 1)])); vm[0] = vm.back(); } break;
        case 7: if (!vm.empty() && r.p(0.5)) vm.erase(vm.begin() + r.i(0, (int)vm.size() - 1)); if (!tm.empty() && r.p(0.5)) tm.erase(tm.begin()); break;
        case 8: for (auto& m : vm) { std::vector<Point> l = m.getPoints().getList(); double a = 0; for (auto& q : m.getPolygons()) { a += q.getArea(l); sinkd = q.getDiameter(l); Point ce = q.getCentroid(l); sinkd = ce.getX(); } c.check(a <= area * (1 + 1e-6) && a >= 0, "kept_mesh_area", "the elements of a kept mesh have area %.12g, the outline %.12g", a, area); for (auto& e : m.getSegments()->getMap()) { c.check(m.getNeighbours(e.first) == e.second, "kept_mesh_edges", "getNeighbours of an edge"); } c.count("kept_meshes_used"); } break;
        case 9: for (auto& m : tm) { std::vector<Point> l = m.getPoints().getList(); double a = 0; for (auto& q : m.getPolygons()) a += q.getArea(l); c.check(std::fabs(a - (double)s.dom.area()) <= 1e-6 * area, "kept_mesh_area", "the triangles of a kept mesh have area %.12g, the domain %.12g", a, (double)s.dom.area()); c.count("kept_meshes_used"); } break;
        case 10: if (!regs.empty()) { Region& g = regs[r.i(0, (int)regs.size() - 1)]; std::vector<Point> p = g.getRegionPoints(); c.check(p.size() >= s.outer.size(), "kept_region", "points"); for (auto& q : g.getHoles()) holes.push_back(q); std::vector<IndexSegment> e; g.getSegments(e); c.check(e.size() == p.size(), "kept_region", "%zu segments for %zu points", e.size(), p.size()); for (auto& x : e) c.check(x.getFirst() >= 0 && x.getFirst() < (int)p.size() && x.getSecond() >= 0 && x.getSecond() < (int)p.size(), "kept_region", "segment"); c.count("kept_regions_used"); } break;
        case 11: if (!holes.empty()) { holes.push_back(holes[r.i(0, (int)holes.size() - 1)]); Hole& q = holes[r.i(0, (int)holes.size() - 1)]; c.check(q.containsPoint(q.getCenter()), "kept_hole", "a hole does not contain its centre"); if (r.p(0.5)) holes.erase(holes.begin()); c.count("kept_holes_used"); } break;
        case 12: if (!vm.empty()) { uniq.push_back(vm[r.i(0, (int)vm.size() - 1)].getPoints()); UniqueList<Point> u(uniq[r.i(0, (int)uniq.size() - 1)]); uniq[0] = u; u = u; std::vector<P2> ul = toRing(u.getList()); if (!ambiguousPoints(ul, DelynoiConfig::instance()->getTolerance())) for (int i = 0; i < u.size(); i++) c.check(u.indexOf(u[i]) == i, "kept_list", "index %d", i); } break;
        case 13: if (!vm.empty()) { SegmentMap* m = vm[r.i(0, (int)vm.size() - 1)].getSegments(); sms.push_back(*m); PointMap* q = vm[0].getPointMap(); pms.push_back(*q); c.check(sms.back().size() == m->size() && pms.back().size() == q->size(), "kept_map", "copy of a map"); if (r.p(0.5)) sms.erase(sms.begin()); } break;
        case 14: if (!vm.empty() && !vm[0].getPolygons().empty()) { std::vector<Polygon> v = vm[0].getPolygons(); polys.push_back(v[r.i(0, (int)v.size() - 1)]); polys[0] = polys.back(); std::sort(polys.begin(), polys.end(), [](const Polygon& a, const Polygon& b) { return a.getPoints() < b.getPoints(); }); Polygon q = polys.back(); c.check(q == polys.back() && q.getPoints() == polys.back().getPoints(), "kept_polygon", "a copy is not equal"); } break;
        default: if (!tm.empty() && !tm[0].getPolygons().empty()) { Triangle t = tm[0].getPolygon(r.i(0, (int)tm[0].getPolygons().size() - 1)); std::vector<Triangle> v(3, t); v[1] = v[2]; c.check(v[1].getPoints() == t.getPoints() && v[1].getCircumcenter() == t.getCircumcenter(), "kept_triangle", "copy of a triangle"); } break;
        }
    }
    c.count("steps", steps); c.mark(h);
}
SUITE(extremes, 0) {         // the ends of the ranges of integers and coordinates
    Rng& r = c.rng; static const int E[] = {INT_MIN, INT_MIN + 1, -1000000007, -1, 0, 1, 65535, 65536, 1 << 30, INT_MAX - 1, INT_MAX}; uint64_t h = 1; auto I = [&]() { return r.p(0.6) ? E[r.i(0, 10)] : (int)r.next(); };
    SegmentMap sm; std::map<std::pair<int, int>, int> ref; std::unordered_map<Key, int, KeyHasher> keys;
    for (int k = 0; k < 40; k++) { int a = I(), b = I(); h = hashmix(hashmix(h, a), b); IndexSegment s(a, b), t(b, a); c.check(s == t && SegmentHasher()(s) == SegmentHasher()(t), "segment_hash", "the hashes of %d %d and %d %d differ", a, b, b, a); c.check(KeyHasher()(Key(a, b)) == KeyHasher()(Key(b, a)) && Key(a, b) == Key(b, a), "key_hash", "the hashes of keys %d %d", a, b); sm.insert(r.p(0.5) ? s : t, NeighboursBySegment(k, -1)); ref[{std::min(a, b), std::max(a, b)}] = k; keys[Key(a, b)] = k; sinkd = utilities::hash32(a); }
    for (auto& e : ref) { c.check(sm.get(IndexSegment(e.first.second, e.first.first)).getFirst() == e.second, "segment_map", "entry of %d %d", e.first.first, e.first.second); c.check(keys[Key(e.first.second, e.first.first)] == e.second, "key_map", "entry of %d %d", e.first.first, e.first.second); } c.check(sm.size() == (int)ref.size() && keys.size() == ref.size(), "segment_map", "size");
    // coordinates far from or close to zero: holes are cut with integers
    double size = std::pow(10.0, r.u(-2, 7)); int scale = r.p(0.2) ? INT_MAX : (int)std::pow(10.0, r.u(2, 9)); DelynoiConfig::instance()->setScale(scale); DelynoiConfig::instance()->setTolerance(1e-9 * size); if (size * scale > 1e15 || size * scale < 1e4) { size = 1e8 / scale; DelynoiConfig::instance()->setTolerance(1e-9 * size); }
    double off = r.p(0.5) ? 0 : size * r.i(-3, 3); std::vector<Point> sq = {Point(off, off), Point(off + size, off), Point(off + size, off + size), Point(off, off + size)}; Region g(sq); c.desc = strf("square of %g at %g, scale %d", size, off, scale); double rad = size * r.u(0.05, 0.2); int where = r.i(0, 2); Point ce = where == 0 ? Point(off + size / 2, off + size / 2) : where == 1 ? Point(off + size, off + size * r.u(0.3, 0.7)) : Point(off + 3 * size, off); CircularHole hole(ce, rad); g.addHole(hole); std::vector<Point> out; { std::vector<Point> all = g.getRegionPoints(); size_t nh = g.getHoles().size(); c.check(nh == (where == 0 ? 1u : 0u), "extreme_hole", "%zu holes kept", nh); out = all; } double a = 0; size_t n = out.size() - (where == 0 ? hole.getPoints().size() : 0); Ring ring; for (size_t k = 0; k < n; k++) ring.push_back(toP2(out[k])); a = (double)std::fabs(ringArea(ring)); double full = size * size, cut = where == 1 ? 0.5 * std::fabs((double)ringArea(circlePoints(toP2(ce), rad, (int)hole.getPoints().size()))) : 0;
    c.check(std::fabs(a - full + cut) <= 1e-3 * full + 20.0 * size / scale + (where == 1 ? 0.2 * cut : 0), "extreme_cut", "the area of the outline is %.12g, should be %.12g", a, full - cut); c.mark(hashmix(hashd(h, size), scale)); c.count("segments", 40); c.count("holes");
}

// Results depend only on the input (C07): fingerprints of whole meshes across request histories, heap contents and stack contents.
#include "dscene.h"
#include <malloc.h>
#include <memory>
#include <fstream>
#include <unistd.h>

static uint64_t fpPoint(uint64_t h, const Point& p) { return hashmix(hashd(hashd(h, p.getX()), p.getY()), Point(p).isInBoundary() ? 7 : 3); }
static uint64_t fpPoints(const std::vector<Point>& v) { uint64_t h = v.size(); for (auto& p : v) h = fpPoint(h, p); return h; }
static uint64_t fpBits(const std::vector<Point>& v) { uint64_t h = v.size(); for (auto& p : v) h = hashd(hashd(h, p.getX()), p.getY()); return h; }
static uint64_t fpSegMap(SegmentMap* m) {
    uint64_t s = m->getMap().size();
    for (auto& e : m->getMap()) { int a = e.first.getFirst(), b = e.first.getSecond(), n1 = e.second.getFirst(), n2 = e.second.getSecond(); s += hashmix(hashmix(hashmix(hashmix(1, a), b), (uint32_t)n1), (uint32_t)n2); }
    return s;
}
template <class T> uint64_t fpMesh(const Mesh<T>& m) {
    UniqueList<Point> l = m.getPoints(); std::vector<Point> pts = l.getList(); uint64_t h = fpPoints(pts);
    for (T q : m.getPolygons()) { h = hashmix(h, 99); for (int i : q.getPoints()) h = hashmix(h, i); h = hashd(hashd(h, q.getArea(pts)), q.getDiameter(pts)); Point c = q.getCentroid(pts); h = hashd(hashd(h, c.getX()), c.getY()); h = hashmix(h, q.hash); }
    h = hashmix(h, fpSegMap(m.getSegments()));
    for (auto& e : m.getPointMap()->getMap()) { h = hashd(hashd(h, e.first.getX()), e.first.getY()); for (int n : e.second.getNeighbours()) h = hashmix(h, n); }
    return h;
}
static uint64_t fpInfo(DelaunayInfo& d) {
    uint64_t h = fpPoints(d.meshPoints);
    for (auto& t : d.triangles) { for (int i : t.getPoints()) h = hashmix(h, i); h = hashmix(h, t.getCircumcenterIndex()); }
    h = hashmix(h, fpSegMap(d.delaunayEdges)); for (int i : d.realPoints.getList()) h = hashmix(h, i);
    for (auto& e : d.edges) h = hashmix(hashmix(hashmix(hashmix(h, e.p1), e.p2), (uint32_t)e.t1), (uint32_t)e.t2);
    for (auto& p : d.points) h = hashmix(h, p.edge);
    return hashmix(h, fpPoints(d.circumcenters.getList()));
}
static uint64_t fpRegion(Region& g) {
    uint64_t h = fpBits(g.getRegionPoints()); h = hashmix(h, fpBits(g.getSeedPoints())); for (auto& q : g.getHoles()) { h = hashmix(h, fpBits(q.getPoints())); h = hashd(hashd(h, q.getCenter().getX()), q.getCenter().getY()); }
    for (int i : ((Polygon&)g).getPoints()) h = hashmix(h, i); std::vector<IndexSegment> s; g.getSegments(s); for (auto& e : s) h = hashmix(hashmix(h, e.getFirst()), e.getSecond());
    return h;
}
static volatile int sink;
static void __attribute__((noinline)) dirtyStack(int pattern) { volatile char b[60000]; for (size_t k = 0; k < sizeof b; k += 1) b[k] = (char)pattern; sink = b[(pattern * 37) % 60000]; }
static void perturb(Rng& r) { static const int P[] = {0, 0x55, 0xAA, 0x01, 0xFF, 0x7f}; int p = P[r.i(0, 5)];
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, p);
#endif
    dirtyStack(p); }
enum { CONSTRAINED, CONFORMING, RESTRICTED, VORONOI, VTRIANGULATION, INFO, KINDS };
static const char* KN[] = {"constrained", "conforming", "restricted", "voronoi", "triangulation of the voronoi generator", "delaunay information"};
struct World { DScene d; Region reg; std::vector<Point> seeds; std::vector<PointSegment> segs; std::vector<P2> pts; uint64_t base[KINDS], regFp, seedFp; std::unique_ptr<TriangleDelaunayGenerator> gen; std::unique_ptr<TriangleVoronoiGenerator> vor; double tol; };
struct Kept { std::string what; uint64_t fp; std::unique_ptr<Mesh<Triangle>> t; std::unique_ptr<Mesh<Polygon>> p; uint64_t now() { return t ? fpMesh(*t) : fpMesh(*p); } };
static uint64_t fpSegs(std::vector<PointSegment>& v) { uint64_t h = v.size(); for (auto& s : v) h = hashd(hashd(hashd(hashd(h, s.getFirst().getX()), s.getFirst().getY()), s.getSecond().getX()), s.getSecond().getY()); return h; }

SUITE(history, 0) {
    Rng& r = c.rng; int n = r.p(0.5) ? 1 : r.i(2, 3); std::vector<World> w(n); uint64_t h = n; std::string desc;
    double tol = 1e-5; 
    for (auto& x : w) {
        lib_reset_config(); x.d = makeScene(c, true); x.tol = DelynoiConfig::instance()->getTolerance(); desc += " SCENE " + c.desc; h = hashmix(h, x.d.s.hash());
        std::vector<P2>& pts = x.pts; pts = x.d.s.input(); for (auto& p : x.d.outside) pts.push_back(p); for (auto& p : x.d.s.outer) pts.push_back(p); for (auto& q : x.d.s.dom.holes) pts.insert(pts.end(), q.begin(), q.end()); for (auto& g : x.d.segs) { pts.push_back(g.first); pts.push_back(g.second); }
        tol = std::min(tol, x.tol);
    }
    c.desc = desc; if (c.verbose) fprintf(stderr, "%s\n", desc.c_str()); DelynoiConfig* cfg = DelynoiConfig::instance(); cfg->setTolerance(tol);
    perturb(r);
    for (auto& x : w) {
        x.reg = x.d.s.region(); x.seeds = seedList(c, x.d); x.segs = segList(x.d); if (r.p(0.5)) x.reg.addSeedPoints(x.seeds);
        if (r.p(0.3)) x.seeds = x.reg.getSeedPoints().empty() ? x.seeds : x.reg.getSeedPoints();
        x.regFp = fpRegion(x.reg); x.seedFp = fpPoints(x.seeds);
        // fresh generators, one per kind
        try {
            x.base[CONSTRAINED] = fpMesh(TriangleDelaunayGenerator(x.seeds, x.reg).getConstrainedDelaunayTriangulation());
            x.base[CONFORMING] = fpMesh(TriangleDelaunayGenerator(x.seeds, x.reg).getConformingDelaunayTriangulation());
            x.base[RESTRICTED] = fpMesh(TriangleDelaunayGenerator(x.seeds, x.reg).getConstrainedDelaunayTriangulation(x.segs));
            { TriangleVoronoiGenerator g(x.seeds, x.reg); x.base[VORONOI] = fpMesh(g.getMesh()); x.base[VTRIANGULATION] = fpMesh(g.getTriangulation()); }
            { TriangleDelaunayGenerator g(x.seeds, x.reg); DelaunayInfo i = g.getConformingDelaunay(); x.base[INFO] = fpInfo(i); }
        } catch (std::exception& e) { c.skipped++; return; }      // judged by C01-C06
    }
    std::vector<Kept> kept; int steps = r.i(4, c.thorough ? 24 : 12); auto done = [&](World& x, int kind, uint64_t got, const char* how) { c.count(std::string("requests_") + KN[kind]); c.check(got == x.base[kind], "differs", "the %s mesh of scene %d asked %s is not the one a fresh generator gives", KN[kind], (int)(&x - &w[0]), how); };
    for (int k = 0; k < steps; k++) {
        World& x = w[r.i(0, n - 1)]; int op = r.i(0, 9); perturb(r); std::vector<Point> seeds = x.seeds; const char* how = "again";
        if (op <= 2) {                         // seeds repeated, exactly or within the tolerance
            int m = r.i(1, 4); if (!x.d.s.seeds.empty()) for (int q = 0; q < m; q++) { size_t i = r.i(0, (int)x.seeds.size() - 1); Point p = x.seeds[i]; bool plain = true; for (auto& z : x.pts) { double dx = std::fabs(z.x - p.getX()); plain = plain && (dx < 1e-13 || dx > 4 * tol); } if (plain && r.p(0.6)) p = Point(p.getX() + r.u(-0.45, 0.45) * tol, p.getY() + r.u(-0.45, 0.45) * tol); seeds.push_back(p); }
            how = "with repeated seeds"; c.count("repeated_seed_lists");
        }
        if (op <= 5) {
            bool own = op > 2 && r.p(0.7); if (own && !x.gen) x.gen.reset(new TriangleDelaunayGenerator(seeds, x.reg));
            TriangleDelaunayGenerator fresh(seeds, x.reg); TriangleDelaunayGenerator* g = own ? x.gen.get() : &fresh; if (own) how = "on a generator in use"; if (own && r.p(0.2)) { TriangleDelaunayGenerator cp(*g); *x.gen = cp; }
            int kind = r.pick(std::vector<int>{CONSTRAINED, CONFORMING, RESTRICTED, INFO}); c.desc += strf(" [%s %s]", KN[kind], how);
            std::vector<PointSegment> segs = x.segs; uint64_t sf = fpSegs(segs);
            if (kind == INFO) { DelaunayInfo i = g->getConformingDelaunay(); done(x, kind, fpInfo(i), how); if (r.p(0.5)) { DelaunayInfo j = g->getConformingDelaunay(); DelaunayToVoronoi a(j); Kept q; q.p.reset(new Mesh<Polygon>(a.getMesh())); q.fp = fpMesh(*q.p); done(x, VORONOI, q.fp, "from delaunay information"); q.what = "voronoi"; kept.push_back(std::move(q)); } }
            else { Kept q; q.t.reset(new Mesh<Triangle>(kind == CONSTRAINED ? g->getConstrainedDelaunayTriangulation() : kind == CONFORMING ? g->getConformingDelaunayTriangulation() : g->getConstrainedDelaunayTriangulation(segs))); q.fp = fpMesh(*q.t); done(x, kind, q.fp, how); q.what = KN[kind]; kept.push_back(std::move(q)); }
            c.check(fpSegs(segs) == sf, "segments-changed", "the restricted segments given were changed");
        } else if (op <= 7) {
            bool own = r.p(0.5); if (own && !x.vor) x.vor.reset(new TriangleVoronoiGenerator(seeds, x.reg)); std::unique_ptr<TriangleVoronoiGenerator> f; if (!own) f.reset(new TriangleVoronoiGenerator(seeds, x.reg)); TriangleVoronoiGenerator* g = own ? x.vor.get() : f.get(); c.desc += " [voronoi]";
            done(x, VORONOI, fpMesh(g->getMesh()), own ? "on a generator in use" : "again"); done(x, VTRIANGULATION, fpMesh(g->getTriangulation()), own ? "on a generator in use" : "again");
            Kept q; q.p.reset(new Mesh<Polygon>(r.p(0.5) ? g->getMesh() : g->getTriangulation())); q.fp = fpMesh(*q.p); q.what = "voronoi"; kept.push_back(std::move(q));
        } else if (op == 8) {                  // unrelated work in between
            c.desc += " [other calls]"; c.count("other_calls"); RingOpts o; Ring q = genRing(r, o); std::vector<Point> pts = toPts(q); Polygon p(pts); uint64_t bits = fpBits(pts);
            EarTriangulationGenerator ear; DelaunayTriangulationGenerator del; uint64_t f[2]; for (int z = 0; z < 4; z++) { std::vector<Triangle> t = z % 2 ? del.triangulate(p, pts) : ear.triangulate(p, pts); uint64_t fp = t.size(); for (auto& e : t) for (int i : e.getPoints()) fp = hashmix(fp, i); if (z < 2) f[z] = fp; else c.check(f[z % 2] == fp, "triangulator-differs", "triangulating a polygon again gives other triangles"); }
            c.check(fpBits(pts) == bits, "triangulator-points", "triangulating a polygon changed its points");
            Circle ci(r.u(1, 5), Point(0, 0)); ci.discretizeCircle(); Region g2(pts); P2 lo, hi; bbox(q, lo, hi);
            PointGenerator pg(functions::constantAlternating(), functions::constant()); g2.generateSeedPoints(pg, 5, 5); std::vector<Point> s2 = g2.getSeedPoints(); try { TriangleDelaunayGenerator(s2, g2).getConstrainedDelaunayTriangulation(); } catch (std::exception&) {}
            int gr = r.i(3, 30), sc = 10000, pr = r.i(0, 16); cfg->setDiscretizationGrade(gr); cfg->setScale(sc); cfg->setPrecision(pr); cfg->setDiscretizationGrade(12); cfg->setScale(100000); cfg->setPrecision(6);
        } else {                               // copies are equal, and independent of the original
            c.desc += " [copies]"; c.count("copies"); Region a(x.reg), b; b = x.reg; c.check(fpRegion(a) == x.regFp && fpRegion(b) == x.regFp, "copy-differs", "a copy of a region differs from it");
            std::vector<Point> sq = {Point(0, 0), Point(1, 0), Point(1, 1)}; a.mutate(sq); a.cleanInternalHoles(); b.cleanSeedPoints(); c.check(fpRegion(x.reg) == x.regFp, "copy-shared", "changing a copy of a region changed the region");
            for (auto& q : x.reg.getHoles()) { Hole hq(q); std::vector<Point> v = hq.getPoints(); v.clear(); c.check(fpBits(hq.getPoints()) == fpBits(q.getPoints()), "copy-differs", "a copy of a hole differs from it"); }
        }
        if (!kept.empty()) { Kept& q = kept[r.i(0, (int)kept.size() - 1)]; c.check(q.now() == q.fp, "mesh-changed", "the %s mesh handed out earlier changed", q.what.c_str()); c.count("handed_out_checked"); }
        c.check(fpRegion(x.reg) == x.regFp, "region-changed", "the region given was changed"); c.check(fpPoints(x.seeds) == x.seedFp, "seeds-changed", "the seeds given were changed");
    }
    for (auto& x : w) { x.gen.reset(); x.vor.reset(); }
    for (auto& q : kept) { c.check(q.now() == q.fp, "mesh-changed", "the %s mesh handed out earlier changed", q.what.c_str()); c.count("handed_out_checked"); }
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, 0);
#endif
    c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 1200));
}

// Voronoi meshes: C01 (subdivision), C02 (nearest generator), C03 (neighbourhood maps).
#include "meshcheck.h"

static SceneOpts voroOpts(Ctx& c) {
    SceneOpts o; o.repeats = true;
    double sz = c.rng.p(0.6) ? 10 : c.rng.p(0.5) ? 1 : c.rng.p(0.5) ? 100 : 1000;
    o.size = sz;
    if (c.rng.p(c.thorough ? 0.15 : 0.01)) { o.maxSeeds = 400; o.sep = 4e-3; }
    if (c.rng.p(c.thorough ? 0.01 : 0.004)) { o.minSeeds = 300; o.maxSeeds = c.thorough ? 4000 : 1500; o.sep = 2e-3; }
    if (HUGE_SCENES && c.rng.p(0.0002)) { o.minSeeds = 4200; o.maxSeeds = 7000; o.sep = 1e-3; }
    // the tolerance is absolute: it has to be small against the domain
    if (sz == 1) DelynoiConfig::instance()->setTolerance(1e-7);
    o.edgeNoise = 0.3 * DelynoiConfig::instance()->getTolerance();
    // corners whose area is below the tolerance are cut
    o.closeMin = 6 * std::sqrt(DelynoiConfig::instance()->getTolerance());
    return o;
}
struct VScene { Scene s; RMesh v, t; };
static bool makeVoronoi(Ctx& c, VScene& o, TriangleVoronoiGenerator*& g) {
    o.s = genScene(c.rng, voroOpts(c));
    c.desc = o.s.desc;
    Region reg = o.s.region();
    std::vector<P2> in = o.s.input(); if (!o.s.extra.empty()) c.rng.shuffle(in);
    std::vector<Point> seeds = toPts(in);
    g = new TriangleVoronoiGenerator(seeds, reg);
    Mesh<Polygon> vm = g->getMesh(); Mesh<Polygon> tm = g->getTriangulation();
    o.v = readMesh(vm); o.t = readMesh(tm);
    std::vector<P2> all = o.v.pts; all.insert(all.end(), o.t.pts.begin(), o.t.pts.end());
    if (ambiguousPoints(all, DelynoiConfig::instance()->getTolerance())) { c.count("skipped_ambiguous"); c.skipped++; return false; }
    return true;
}
// nodes move by up to the tolerance when they are merged, and nearly collinear corners (twice their area below the
// tolerance) are cut
static double tolFor(const Scene& s) { return s.size == 1 ? 1e-5 : 1e-4; }
static void note(Ctx& c, const VScene& o) {
    c.mark(o.s.hash());
    c.count("holes", o.s.dom.holes.size()); c.count("seeds", o.s.seeds.size()); c.count("seeds_on_boundary", o.s.onEdge.size());
    c.maxi("seeds", o.s.seeds.size());
    if (c.samples.size() < 2 && o.s.seeds.size() > 1) c.samples.push_back(strf("%s -> %zu cells, %zu points", o.s.desc.c_str(), o.v.cells.size(), o.v.pts.size()));
}
SUITE(voronoi_tile, 0) {
    VScene o; TriangleVoronoiGenerator* g = nullptr;
    if (!makeVoronoi(c, o, g)) { delete g; return; }
    double tol = tolFor(o.s);
    c.check(o.v.cells.size() == o.t.pts.size(), "cell-count", "%zu cells for %zu generating points", o.v.cells.size(), o.t.pts.size());
    checkSubdivision(c, o.v, o.s.dom, tol, "Voronoi");
    // every sampled point of the domain is in exactly one cell
    std::vector<Ring> rings; std::vector<std::pair<P2, P2>> bb;
    for (size_t k = 0; k < o.v.cells.size(); k++) { rings.push_back(o.v.ring(k)); P2 lo, hi; bbox(rings.back(), lo, hi); bb.push_back({lo, hi}); }
    for (int k = 0; k < 40; k++) {
        P2 p; P2 lo, hi; bbox(o.s.outer, lo, hi); p = P2{c.rng.u(lo.x, hi.x), c.rng.u(lo.y, hi.y)};
        int n = 0; bool close = o.s.dom.boundaryDist(p) < 2 * tol;
        for (size_t q = 0; q < rings.size() && !close; q++) {
            if (p.x < bb[q].first.x - tol || p.x > bb[q].second.x + tol || p.y < bb[q].first.y - tol || p.y > bb[q].second.y + tol) continue;
            if (ringBoundaryDist(rings[q], p) < tol) close = true;
            else if (ringContains(rings[q], p)) n++;
        }
        if (close) { c.count("samples_too_close"); continue; }
        int want = o.s.dom.inside(p) ? 1 : 0;
        c.count(want ? "samples_inside" : "samples_outside");
        c.check(n == want, "cover", "point %s is in %d cells, should be in %d", ptStr(p).c_str(), n, want);
    }
    note(c, o);
    delete g;
}
SUITE(voronoi_near, 0) {
    VScene o; TriangleVoronoiGenerator* g = nullptr;
    if (!makeVoronoi(c, o, g)) { delete g; return; }
    double tol = tolFor(o.s);
    const Domain& d = o.s.dom;
    const std::vector<P2>& gen = o.t.pts;
    auto isGen = [&](const P2& p) { for (auto& q : gen) if (std::fabs(q.x - p.x) < 2e-5 && std::fabs(q.y - p.y) < 2e-5) return true; return false; };
    for (auto& p : o.s.all()) c.check(isGen(p), "seed-lost", "seed %s generates no cell", ptStr(p).c_str());
    for (auto& p : o.s.outer) c.check(isGen(p), "corner-lost", "domain vertex %s is no generating point", ptStr(p).c_str());
    for (auto& h : d.holes) for (auto& p : h) c.check(isGen(p), "corner-lost", "hole vertex %s is no generating point", ptStr(p).c_str());
    // generators that are neither seeds nor vertices lie on the boundary
    for (auto& p : gen) {
        bool in = false;
        for (auto& q : o.s.all()) in = in || dist(p, q) < 2e-5;
        if (!in) c.check(d.boundaryDist(p) < 1e-6 * o.s.size, "extra-generator", "generating point %s is neither a seed nor on the boundary", ptStr(p).c_str());
    }
    c.check(o.v.cells.size() == gen.size(), "cell-count", "%zu cells for %zu generating points", o.v.cells.size(), gen.size());
    std::vector<int> owner(gen.size(), -1);
    for (size_t k = 0; k < o.v.cells.size(); k++) {
        Ring r = o.v.ring(k);
        int mine = -1, n = 0; P2 lo, hi; bbox(r, lo, hi);
        for (size_t q = 0; q < gen.size(); q++) {
            if (gen[q].x < lo.x - tol || gen[q].x > hi.x + tol || gen[q].y < lo.y - tol || gen[q].y > hi.y + tol) continue;
            if (ringContains(r, gen[q]) || ringBoundaryDist(r, gen[q]) <= tol) { mine = (int)q; n++; }
        }
        c.check(n == 1, "one-generator", "cell %zu contains %d generating points: %s", k, n, ringStr(r).c_str());
        c.check(owner[mine] == -1, "one-cell", "generating point %s has cells %d and %zu", ptStr(gen[mine]).c_str(), owner[mine], k);
        owner[mine] = (int)k;
        P2 gq = gen[mine];
        std::vector<P2> probes;
        for (auto& v : r) { probes.push_back(P2{v.x + 1e-3 * (gq.x - v.x), v.y + 1e-3 * (gq.y - v.y)}); }
        for (int q = 0; q < 3; q++) {
            size_t i = c.rng.i(0, (int)r.size() - 1); P2 a = r[i], b = r[(i + 1) % r.size()]; double t = c.rng.u(), u = c.rng.u(0, 0.999);
            probes.push_back(P2{gq.x + u * (a.x + t * (b.x - a.x) - gq.x), gq.y + u * (a.y + t * (b.y - a.y) - gq.y)});
        }
        for (auto& x : probes) {
            LD mineD = dist(x, gq);
            for (size_t q = 0; q < gen.size(); q++) {
                if ((int)q == mine) continue;
                LD dq = dist(x, gen[q]);
                if (dq >= mineD - 2 * tol) continue;
                if (!d.visible(x, gen[q])) { c.count("nearer_but_hidden"); continue; }
                c.check(false, "nearest", "point %s of the cell of %s is nearer to %s by %.3Lg", ptStr(x).c_str(), ptStr(gq).c_str(), ptStr(gen[q]).c_str(), mineD - dq);
            }
            c.evaluations++; c.count("probes");
        }
    }
    note(c, o);
    delete g;
}
SUITE(voronoi_maps, 0) {
    VScene o; TriangleVoronoiGenerator* g = nullptr;
    if (!makeVoronoi(c, o, g)) { delete g; return; }
    Mesh<Polygon>& m = g->getMesh();
    checkMaps(c, m.getSegments(), m.getPointMap(), o.v, o.s.dom, tolFor(o.s), "Voronoi");
    // the accessors of the mesh agree with its parts
    EdgeCells e = edgeCells(o.v);
    for (auto& kv : e) {
        NeighboursBySegment n = m.getNeighbours(IndexSegment(kv.first.first, kv.first.second)), k = m.getSegments()->get(IndexSegment(kv.first.first, kv.first.second));
        c.check(n == k, "mesh-getneighbours", "Mesh::getNeighbours disagrees with the map");
    }
    for (size_t k = 0; k < o.v.cells.size(); k++) c.check(m.getPolygon((int)k).getPoints() == o.v.cells[k], "mesh-getpolygon", "element %zu", k);
    note(c, o);
    delete g;
}

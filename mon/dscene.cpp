#include "dscene.h"

static bool segInside(const Domain& d, const P2& a, const P2& b, double margin) {
    // endpoints may be vertices of the domain; the rest of the segment stays clear of the boundary
    if (!d.visible(a, b)) return false;
    double L = (double)dist(a, b);
    for (int k = 0; k <= 40; k++) {
        double t = k / 40.0; P2 m = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
        double e = std::min(t, 1 - t) * L;
        bool nearA = d.boundaryDist(a) < 1e-12 && t < 0.5, nearB = d.boundaryDist(b) < 1e-12 && t >= 0.5;
        if (nearA || nearB) { if (e > 1e-9 && (!d.inside(m) || d.boundaryDist(m) < std::min(margin, 0.2 * e))) return false; }
        else if (!d.inside(m) || d.boundaryDist(m) < margin) return false;
    }
    return true;
}
static void genSegments(Rng& r, DScene& o) {
    Scene& s = o.s; double sz = s.size, margin = 0.01 * sz;
    int want = r.p(0.04) ? r.i(10, 40) : r.i(1, 6); o.crossing = r.p(0.2);
    for (int k = 0; k < want * 3 && (int)o.segs.size() < want; k++) {
        auto end = [&](P2& p) -> bool {
            double q = r.u();
            if (q < 0.45 && !s.seeds.empty()) { p = r.pick(s.seeds); return true; }
            if (q < 0.6) { p = r.pick(s.outer); return true; }
            if (q < 0.7 && !s.holes.empty()) { p = r.pick(r.pick(s.holes).ring); return true; }
            if (!randomInside(r, s.dom, 0.03 * sz, p)) return false;
            for (auto& g : s.all()) if (dist(p, g) < 0.02 * sz) return false;
            for (auto& g : o.segs) if (dist(p, g.first) < 0.02 * sz || dist(p, g.second) < 0.02 * sz) return false;
            return true;
        };
        P2 a, b; if (!end(a) || !end(b)) continue;
        if (dist(a, b) < 0.05 * sz || !segInside(s.dom, a, b, margin)) continue;
        bool ok = true;
        auto clear = [&](const P2& p, const P2& u, const P2& v) { return (p.x == u.x && p.y == u.y) || (p.x == v.x && p.y == v.y) || distSeg(p, u, v) > 0.01 * sz; };
        auto same = [](const P2& p, const P2& q) { return p.x == q.x && p.y == q.y; };
        for (auto& g : o.segs) {
            bool share = same(a, g.first) || same(a, g.second) || same(b, g.first) || same(b, g.second);
            if ((same(a, g.first) && same(b, g.second)) || (same(a, g.second) && same(b, g.first))) { ok = false; break; }
            // ends of either stay off the other one unless shared; shared ends at a decent angle
            ok = ok && clear(a, g.first, g.second) && clear(b, g.first, g.second) && clear(g.first, a, b) && clear(g.second, a, b);
            if (!share && !o.crossing && segSegDist(a, b, g.first, g.second) < 0.01 * sz) ok = false;
        }
        // no three segments through a point that is no vertex
        auto meet = [&](const std::pair<P2, P2>& u, const std::pair<P2, P2>& v, P2& x) { LD o1 = orient(u.first, u.second, v.first), o2 = orient(u.first, u.second, v.second), o3 = orient(v.first, v.second, u.first), o4 = orient(v.first, v.second, u.second); if ((o1 > 0) == (o2 > 0) || (o3 > 0) == (o4 > 0) || o1 == o2) return false; LD t = o1 / (o1 - o2); x = P2{(double)(v.first.x + t * ((LD)v.second.x - v.first.x)), (double)(v.first.y + t * ((LD)v.second.y - v.first.y))}; return true; };
        for (auto& g : o.segs) { P2 x; if (meet({a, b}, g, x)) for (auto& q : o.segs) if (&q != &g) ok = ok && distSeg(x, q.first, q.second) > 0.005 * sz; for (auto& q : o.segs) if (&q != &g && meet(g, q, x)) ok = ok && distSeg(x, a, b) > 0.005 * sz; }
        // seeds are either exactly an end or clear of the segment; or lie exactly on it (axis-parallel only)
        for (auto& g : s.seeds) ok = ok && clear(g, a, b);
        for (auto& g : s.outer) ok = ok && clear(g, a, b);
        for (auto& h : s.holes) for (auto& g : h.ring) ok = ok && clear(g, a, b);
        if (!ok) continue;
        if (r.p(0.25) && a.x != b.x && a.y != b.y) ; // general position
        o.segs.push_back({a, b});
        // sometimes a seed exactly on an axis-parallel segment
    }
    if (r.p(0.3) && !s.seeds.empty()) {
        // an axis-parallel segment through seeds
        P2 a = r.pick(s.seeds), b = a; bool horiz = r.p(0.5); double L = r.u(0.1, 0.4) * sz; (horiz ? b.x : b.y) += L;
        P2 m = a; (horiz ? m.x : m.y) += L * r.u(0.3, 0.7);
        bool ok = segInside(s.dom, a, b, margin);
        for (auto& g : o.segs) ok = ok && segSegDist(a, b, g.first, g.second) > 0.01 * sz;
        for (auto& g : s.seeds) ok = ok && (dist(g, a) == 0 || distSeg(g, a, b) > 0.01 * sz);
        if (ok) { s.seeds.push_back(m); o.segs.push_back({a, b}); }
    }
    o.s.desc += " restricted segments";
    for (auto& g : o.segs) o.s.desc += " " + ptStr(g.first) + "-" + ptStr(g.second);
    o.s.desc += " (seeds " + ringStr(o.s.seeds) + ")";
}
DScene makeScene(Ctx& c, bool segs) {
    SceneOpts so; so.repeats = true; double sz = c.rng.p(0.5) ? 10 : c.rng.p(0.4) ? 1 : c.rng.p(0.5) ? 100 : 5000;
    so.size = sz;
    if (c.rng.p(c.thorough ? 0.15 : 0.01)) { so.maxSeeds = 400; so.sep = 4e-3; }
    if (c.rng.p(c.thorough ? 0.01 : 0.004)) { so.minSeeds = 300; so.maxSeeds = c.thorough ? 4000 : 1500; so.sep = 2e-3; }
    if (HUGE_SCENES && c.rng.p(0.0002)) { so.minSeeds = 4200; so.maxSeeds = 7000; so.sep = 1e-3; }
    if (sz == 1) DelynoiConfig::instance()->setTolerance(1e-7);
    so.closeMin = 50 * DelynoiConfig::instance()->getTolerance();
    DScene o; o.s = genScene(c.rng, so);
    if (segs) genSegments(c.rng, o);
    if (c.rng.p(0.2)) {
        // seeds that are not in the domain: they must be ignored
        P2 lo, hi; bbox(o.s.outer, lo, hi);
        for (int k = c.rng.i(1, 4); k > 0; k--) {
            P2 p = {c.rng.u(lo.x - sz, hi.x + sz), c.rng.u(lo.y - sz, hi.y + sz)};
            if (c.rng.p(0.5) && !o.s.holes.empty()) { Domain h; h.outer = c.rng.pick(o.s.holes).ring; if (ringArea(h.outer) < 0) h.outer = reversed(h.outer); if (!randomInside(c.rng, h, 0.005 * sz, p)) continue; }
            if (o.s.dom.inside(p) || o.s.dom.boundaryDist(p) < 0.005 * sz) continue;
            bool ok = true; for (auto& q : o.outside) ok = ok && dist(p, q) > 0.005 * sz;
            if (ok) o.outside.push_back(p);
        }
        if (!o.outside.empty()) o.s.desc += " and points outside " + ringStr(o.outside);
    }
    c.desc = o.s.desc;
    return o;
}
std::vector<Point> seedList(Ctx& c, DScene& o) {
    std::vector<P2> v = o.s.input(); if (!o.s.extra.empty()) c.rng.shuffle(v); v.insert(v.end(), o.outside.begin(), o.outside.end());
    return toPts(v);
}
std::vector<PointSegment> segList(const DScene& o) { std::vector<PointSegment> v; for (auto& g : o.segs) v.push_back(PointSegment(toPt(g.first), toPt(g.second))); return v; }

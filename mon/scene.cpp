#include "scene.h"

Ring circlePoints(const P2& c, double rad, int n) { Ring o; for (int k = 0; k < n; k++) { double t = 2 * M_PI * k / n; o.push_back(P2{c.x + rad * cos(t), c.y + rad * sin(t)}); } return o; }

uint64_t Scene::hash() const {
    uint64_t h = 17;
    for (auto& p : outer) h = hashd(hashd(h, p.x), p.y);
    for (auto& q : holes) for (auto& p : q.ring) h = hashd(hashd(h, p.x), p.y);
    for (auto& p : seeds) h = hashd(hashd(h, p.x), p.y);
    for (auto& p : onEdge) h = hashd(hashd(h, p.x), p.y);
    return h;
}
Region Scene::region() const {
    std::vector<Point> pts = toPts(!given.empty() ? given : cuts.empty() ? outer : base);
    Region reg(pts);
    for (auto& h : cuts) { if (h.circular) reg.addHole(CircularHole(toPt(h.c), h.r)); else { std::vector<Point> hp = toPts(h.ring); reg.addHole(PolygonalHole(hp)); } }
    for (auto& h : holes) {
        if (h.circular) reg.addHole(CircularHole(Point(h.c.x, h.c.y), h.r));
        else { std::vector<Point> hp = toPts(h.ring); reg.addHole(PolygonalHole(hp)); }
    }
    return reg;
}
Scene genScene(Rng& r, const SceneOpts& o) {
    Scene s; s.size = o.size;
    RingOpts ro; ro.size = o.size; ro.minClear = 0.03; ro.maxN = 40;
    std::string rn, sn;
    if (o.ringKind < 0 && r.p(o.big)) s.outer = genBigRing(r, o.size, r.i(40, 110), 14, &rn); else s.outer = genRing(r, ro, o.ringKind, &rn);
    if (r.p(0.15)) { s.outer = reversed(s.outer); rn += "/clockwise"; }
    if (o.cuts && r.p(0.2)) {
        // the outline as the library leaves it after cutting holes (their correctness is judged elsewhere)
        for (int k = r.i(1, 2); k > 0; k--) {
            int e = r.i(0, (int)s.outer.size() - 1); P2 a = s.outer[e], b = s.outer[(e + 1) % s.outer.size()]; double t = r.u(), rad = o.size * r.u(0.05, 0.25); P2 c = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
            HoleSpec h{r.p(0.5), c, rad, Ring()}; Ring before = s.outer; Ring base = s.base.empty() ? s.outer : s.base;
            if (!h.circular) { RingOpts ho; ho.size = 1; ho.minClear = 0.1; ho.translate = false; ho.maxN = 10; h.ring = genRing(r, ho); for (auto& p : h.ring) p = P2{c.x + (p.x - 0.5) * 2 * rad, c.y + (p.y - 0.5) * 2 * rad}; }
            std::vector<Point> bp = toPts(base); Region reg(bp); s.cuts.push_back(h); bool ok = true; std::vector<Point> now;
            try { for (auto& q : s.cuts) { if (q.circular) reg.addHole(CircularHole(toPt(q.c), q.r)); else { std::vector<Point> hp = toPts(q.ring); reg.addHole(PolygonalHole(hp)); } } now = reg.getRegionPoints(); ok = reg.getHoles().empty(); } catch (std::exception&) { ok = false; }
            Ring got = toRing(now); ok = ok && got.size() >= 3 && got.size() < 80 && ringClearance(got) >= 0.02 * o.size && ringMinAngle(got) >= 14 && std::fabs(ringArea(got)) > 0.05 * o.size * o.size;
            if (!ok) { s.cuts.pop_back(); continue; }
            s.base = base; s.outer = got; rn += "/cut";
        }
    }
    if (o.repeats && s.cuts.empty() && r.p(0.06)) { for (size_t k = 0; k < s.outer.size(); k++) { s.given.push_back(s.outer[k]); if (r.p(0.2)) s.given.push_back(s.outer[k]); } if (r.p(0.5)) s.given.push_back(s.outer[0]); }
    s.dom.outer = s.outer;
    int nh = (o.maxHoles > 0 && r.p(0.5)) ? r.i(1, o.maxHoles) : 0; double mc = 0.03 * o.size; if (o.maxHoles > 0 && r.p(o.big)) { nh = r.i(4, 12); mc = 0.015 * o.size; }
    for (int k = 0; k < nh; k++) {
        if (r.p(0.4)) {
            P2 c; if (!randomInside(r, s.dom, 3 * mc, c)) continue;
            double room = (double)s.dom.boundaryDist(c) - mc; if (room <= mc) continue;
            double rad = nh > 3 ? r.u(mc, std::min(room, 3 * mc)) : r.u(mc, room);
            int n = DelynoiConfig::instance()->getDiscretizationGrade();
            Ring cr = circlePoints(c, rad, n);
            s.holes.push_back(HoleSpec{true, c, rad, cr}); s.dom.holes.push_back(cr);
        } else {
            Ring h = genHoleInside(r, s.dom, mc, !o.nonConvexHoles || r.p(0.5));
            if (h.empty()) continue;
            if (r.p(0.3)) h = reversed(h);
            s.holes.push_back(HoleSpec{false, P2{0, 0}, 0, h}); s.dom.holes.push_back(h);
        }
    }
    int n = o.minSeeds > 0 ? r.i(o.minSeeds, std::max(o.minSeeds, o.maxSeeds)) : r.p(0.15) ? r.i(0, 3) : r.p(0.3) ? r.i(1, o.maxSeeds) : r.i(1, std::max(1, o.maxSeeds / 4));
    int kind = r.i(0, 7);
    if (o.boxGrid && r.p(0.12)) {
        // the library's own grid over the bounding box, the points on the boundary included
        sn = "box grid"; P2 lo, hi; bbox(s.outer, lo, hi); int nx = r.i(2, 9), ny = r.i(2, 9); std::vector<Point> g; bool alt = nx > 2 && r.p(0.5); double least = std::max(o.closeMin, 1e-3 * o.size);
        Functor *fx = alt ? functions::constantAlternating() : functions::constant(), *fy = functions::constant(); PointGenerator pg(fx, fy); BoundingBox box(toPt(lo), toPt(hi)); pg.generate(g, box, nx, ny); delete fx; delete fy;
        for (auto& q : g) {
            P2 p = toP2(q); double d = (double)s.dom.boundaryDist(p); bool vertex = false, near = false; if (!(std::fabs(p.x) < 1e9) || !(std::fabs(p.y) < 1e9)) continue;
            for (auto& v : s.outer) { vertex = vertex || (v.x == p.x && v.y == p.y); near = near || dist(v, p) < o.sep * o.size; }
            for (auto& h : s.dom.holes) for (auto& v : h) near = near || dist(v, p) < o.sep * o.size;
            for (auto& v : s.all()) near = near || dist(v, p) < o.sep * o.size;
            if (vertex) s.extra.push_back(p); else if (near) continue; else if (d < 1e-14 * o.size) s.onEdge.push_back(p); else if (d >= least && s.dom.inside(p)) s.seeds.push_back(p);
        }
    } else s.seeds = genSeeds(r, s.dom, n, o.sep * o.size, o.sep * o.size, kind, &sn);
    // some seeds much closer to each other or to the boundary than the others
    if (o.closeMin > 0 && r.p(0.25)) for (int k = r.i(1, 6); k > 0; k--) {
        double least = o.closeMin, d = least * std::pow(std::max(1.0, o.sep * o.size / least), r.u()); P2 p;
        if (r.p(0.5) && !s.seeds.empty()) { P2 q = r.pick(s.seeds); double a = r.p(0.3) ? r.i(0, 3) * M_PI / 2 : r.u(0, 2 * M_PI); p = P2{q.x + d * cos(a), q.y + d * sin(a)}; }
        else { const Ring& e = !s.dom.holes.empty() && r.p(0.3) ? r.pick(s.dom.holes) : s.outer; int i = r.i(0, (int)e.size() - 1); P2 a = e[i], b = e[(i + 1) % e.size()]; double t = r.u(), L = (double)dist(a, b), sg = r.p(0.5) ? 1 : -1; p = P2{a.x + t * (b.x - a.x) - sg * d * (b.y - a.y) / L, a.y + t * (b.y - a.y) + sg * d * (b.x - a.x) / L}; }
        if (!s.dom.inside(p) || s.dom.boundaryDist(p) < 0.9 * d) continue;
        bool ok = true; for (auto& q : s.seeds) ok = ok && dist(p, q) >= 0.9 * d;
        if (ok) s.seeds.push_back(p);
    }
    int ne = (o.edgeSeeds && r.p(0.3)) ? r.i(1, 6) : 0;
    for (int k = 0; k < ne; k++) {
        const HoleSpec* eh = !s.holes.empty() && r.p(0.3) ? &r.pick(s.holes) : nullptr; const Ring& er = eh ? eh->ring : s.outer;
        int e = r.i(0, (int)er.size() - 1); P2 a = er[e], b = er[(e + 1) % er.size()]; if (&er != &s.outer && dist(a, b) < 0.04 * o.size) continue;
        double t = r.p(0.4) ? 0.5 : r.u(0.15, 0.85);
        P2 m = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
        // exactly on the edge where that is possible, or off it by rounding (to either side)
        if (a.x == b.x) m.x = a.x; else if (a.y == b.y) m.y = a.y; else if (r.p(0.5)) m = P2{(a.x + b.x) / 2, (a.y + b.y) / 2};
        if (r.p(0.2)) { double w = o.edgeNoise > 0 && r.p(0.4) ? o.edgeNoise : r.p(0.5) ? 1e-12 * o.size : 1e-15 * o.size; m.x += r.u(-w, w); m.y += r.u(-w, w); }
        bool ok = true;
        for (auto& q : s.all()) ok = ok && dist(q, m) >= o.sep * o.size;
        for (auto& q : s.outer) ok = ok && dist(q, m) >= o.sep * o.size;
        for (auto& h : s.dom.holes) for (auto& q : h) ok = ok && dist(q, m) >= o.sep * o.size;
        if (ok) s.onEdge.push_back(m);
    }
    if (r.p(0.15)) for (int k = r.i(1, 5); k > 0; k--) {
        int w = r.i(0, 2);
        if (w == 0 && !s.seeds.empty()) s.extra.push_back(r.pick(s.seeds));
        if (w == 1) s.extra.push_back(r.pick(s.outer));
        if (w == 2 && !s.holes.empty()) { auto& h = r.pick(s.holes); if (!h.circular) s.extra.push_back(r.pick(h.ring)); }
    }
    std::string d = strf("domain %s size %g ", rn.c_str(), o.size) + ringStr(s.given.empty() ? s.outer : s.given);
    if (!s.cuts.empty()) { d += " which is " + ringStr(s.base); for (auto& h : s.cuts) d += h.circular ? strf(" cut by circle (%.17g,%.17g) r=%.17g", h.c.x, h.c.y, h.r) : " cut by " + ringStr(h.ring); }
    for (auto& h : s.holes) d += h.circular ? strf(" circular hole (%.17g,%.17g) r=%.17g", h.c.x, h.c.y, h.r) : " hole " + ringStr(h.ring);
    d += strf(" %zu seeds (%s) ", s.seeds.size(), sn.c_str()) + ringStr(s.seeds);
    if (!s.onEdge.empty()) d += " on the boundary " + ringStr(s.onEdge);
    if (!s.extra.empty()) d += " repeated " + ringStr(s.extra);
    s.desc = d;
    return s;
}
bool ambiguousPoints(const std::vector<P2>& pts, double tol) {
    auto chain = [&](std::vector<double> v) {
        std::sort(v.begin(), v.end());
        int near = 0;
        for (size_t k = 1; k < v.size(); k++) {
            double g = v[k] - v[k - 1];
            if (g > 1e-9 && g < 3 * tol) near++;
        }
        return near > 0;
    };
    // only x decides which points are compared by y
    std::vector<double> xs; for (auto& p : pts) xs.push_back(p.x);
    if (!chain(xs)) return false;
    // an ambiguity needs three points: x within reach of each other in a chain
    std::vector<P2> s = pts; std::sort(s.begin(), s.end(), [](const P2& a, const P2& b) { return a.x < b.x; });
    for (size_t k = 0; k < s.size(); k++) {
        size_t j = k; double lo = s[k].x; bool gap = false; size_t n = 1;
        while (j + 1 < s.size() && s[j + 1].x - s[j].x < 3 * tol) { if (s[j + 1].x - s[j].x > 1e-9) gap = true; j++; n++; }
        if (gap && n >= 3) return true;
        (void)lo; k = j;
    }
    return false;
}

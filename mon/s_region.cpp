// Regions: hole processing (C08), seed lists (C09), seed generation rules (C10), configuration (C19).
#include "scene.h"
#include <fstream>
#include <unistd.h>

static uint64_t ringHash(uint64_t h, const Ring& r) { for (auto& p : r) h = hashd(hashd(h, p.x), p.y); return h; }
static bool sameRing(const std::vector<Point>& v, const Ring& r, size_t from = 0) {
    if (v.size() < from + r.size()) return false;
    for (size_t k = 0; k < r.size(); k++) if (v[from + k].getX() != r[k].x || v[from + k].getY() != r[k].y) return false;
    return true;
}
// How do two simple polygons lie? Only pairs in general position (by `gap`) are told apart; 9 means undecided.
enum { APART, INSIDE, COVERS, CROSS, UNSURE = 9 };
struct Cut { size_t e; LD t; size_t f; LD u; };
static int relation(const Ring& a, const Ring& b, LD gap, int& parts) {
    std::vector<Cut> cuts; size_t n = a.size(), m = b.size(); parts = 0;
    for (auto& p : a) if (ringBoundaryDist(b, p) < gap) return UNSURE;
    for (auto& p : b) if (ringBoundaryDist(a, p) < gap) return UNSURE;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) {
        P2 p = a[i], q = a[(i + 1) % n], r = b[j], s = b[(j + 1) % m]; LD o1 = orient(p, q, r), o2 = orient(p, q, s), o3 = orient(r, s, p), o4 = orient(r, s, q);
        if ((o1 > 0) == (o2 > 0) || (o3 > 0) == (o4 > 0)) continue;
        LD D = ((LD)q.x - p.x) * ((LD)s.y - r.y) - ((LD)q.y - p.y) * ((LD)s.x - r.x);
        if (std::fabs(D) < 0.05L * dist(p, q) * dist(r, s)) return UNSURE;
        cuts.push_back(Cut{i, o3 / (o3 - o4), j, o1 / (o1 - o2)});
    }
    if (cuts.empty()) return ringContains(a, b[0]) ? INSIDE : ringContains(b, a[0]) ? COVERS : APART;
    if (cuts.size() % 2) return UNSURE;
    for (size_t x = 0; x < cuts.size(); x++) for (size_t y = 0; y < x; y++) {
        auto at = [&](const Cut& c) { P2 p = a[c.e], q = a[(c.e + 1) % n]; return P2{(double)(p.x + c.t * (q.x - p.x)), (double)(p.y + c.t * (q.y - p.y))}; };
        if (dist(at(cuts[x]), at(cuts[y])) < gap) return UNSURE;
    }
    // pieces of a minus b: follow a outside b, then b (the other way round) inside a
    size_t k = cuts.size(); std::vector<size_t> ia(k), ib(k);
    for (size_t x = 0; x < k; x++) ia[x] = ib[x] = x;
    std::sort(ia.begin(), ia.end(), [&](size_t x, size_t y) { return std::make_pair(cuts[x].e, cuts[x].t) < std::make_pair(cuts[y].e, cuts[y].t); });
    std::sort(ib.begin(), ib.end(), [&](size_t x, size_t y) { return std::make_pair(cuts[x].f, cuts[x].u) < std::make_pair(cuts[y].f, cuts[y].u); });
    std::vector<size_t> na(k), nb(k), pb(k);
    for (size_t x = 0; x < k; x++) { na[ia[x]] = ia[(x + 1) % k]; nb[ib[x]] = ib[(x + 1) % k]; pb[ib[(x + 1) % k]] = ib[x]; }
    bool same = (ringArea(a) > 0) == (ringArea(b) > 0);
    std::vector<bool> leaves(k), seen(k, false);   // does a go out of b at the cut?
    for (size_t x = 0; x < k; x++) { P2 p = a[cuts[x].e], q = a[(cuts[x].e + 1) % n], r = b[cuts[x].f], s = b[(cuts[x].f + 1) % m]; LD o = orient(r, s, q); if (ringArea(b) < 0) o = -o; leaves[x] = o < 0; (void)p; }
    for (size_t x = 0; x < k; x++) {
        if (!leaves[x] || seen[x]) continue;
        parts++; size_t y = x; do { seen[y] = true; size_t z = na[y]; y = same ? pb[z] : nb[z]; if (!leaves[y]) return UNSURE; } while (!seen[y]);
    }
    return CROSS;
}
static LD clipArea(const Ring& a, const Ring& b);
SUITE(holes, 0) {
    Rng& r = c.rng; DelynoiConfig* cfg = DelynoiConfig::instance();
    RingOpts o; o.size = r.pick(std::vector<double>{1, 10, 10, 100, 1000, 30000}); o.minClear = 0.02; o.maxN = 40; std::string nm;
    if (r.p(0.2)) cfg->setScale(r.pick(std::vector<int>{1000, 10000, 1000000, 10000000}));
    if (o.size * cfg->getScale() < 3000) cfg->setScale(100000);
    double grid = 1.0 / cfg->getScale(), size = o.size, eps = 6 * grid + 1e-9 * size;
    if (size == 1) cfg->setTolerance(1e-7);
    Ring cur = r.p(0.03) ? genBigRing(r, size, r.i(40, 110), 10, &nm) : genRing(r, o, -1, &nm); if (r.p(0.3)) cur = reversed(cur); Ring first = cur;
    std::vector<Point> rp = toPts(cur); Region reg(rp); std::vector<Ring> kept; uint64_t h = ringHash(3, cur);
    c.desc = strf("scale %d domain %s ", cfg->getScale(), nm.c_str()) + ringStr(cur);
    bool many = r.p(0.05); int n = many ? r.i(8, 40) : r.i(1, 4); bool any = false;
    for (int k = 0; k < n; k++) {
        Ring hr; bool circ = r.p(0.3); P2 ctr{0, 0}; double rad = 0; P2 lo, hi; bbox(cur, lo, hi);
        ctr = P2{r.u(lo.x - 0.2 * size, hi.x + 0.2 * size), r.u(lo.y - 0.2 * size, hi.y + 0.2 * size)};
        if (r.p(0.4)) { int e = r.i(0, (int)cur.size() - 1); double t = r.u(); P2 a = cur[e], b = cur[(e + 1) % cur.size()]; ctr = P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; }
        rad = size * (many ? r.u(0.02, 0.08) : r.p(0.1) ? r.u(0.5, 2.5) : r.u(0.04, 0.4));
        if (circ) { cfg->setDiscretizationGrade(r.i(3, 40)); hr = circlePoints(ctr, rad, cfg->getDiscretizationGrade()); }
        else {
            RingOpts ho; ho.size = 1; ho.minClear = 0.06; ho.translate = false; ho.maxN = 14; hr = genRing(r, ho); double an = r.p(0.5) ? 0 : r.u(0, 6.3);
            for (auto& p : hr) { double x = (p.x - 0.5) * 2 * rad, y = (p.y - 0.5) * 2 * rad; p = P2{ctr.x + x * cos(an) - y * sin(an), ctr.y + x * sin(an) + y * cos(an)}; }
            if (r.p(0.08)) {         // a hook whose centroid lies exactly in the middle of one of its own sides
                double a = 4, cw = 3, b = r.i(2, 6), dd = b * (a - std::sqrt(a * a - a * cw)) / cw; double sx = rad / 4, sy = rad / 4; if (r.p(0.7)) { cw = 3; b = 3; dd = 2; sx = sy = std::pow(2.0, std::floor(std::log2(rad / 4))); ctr = P2{std::round(ctr.x * 8) / 8, std::round(ctr.y * 8) / 8}; }
                hr = {{0, 0}, {a, 0}, {a, b}, {a - (a - cw) / 2, b}, {a - (a - cw) / 2, b - dd}, {(a - cw) / 2, b - dd}, {(a - cw) / 2, b}, {0, b}}; int turn = r.i(0, 3);
                for (auto& p : hr) { double x = (p.x - 2) * sx, y = (p.y - 1.5) * sy; for (int q = 0; q < turn; q++) { double z = x; x = -y; y = z; } p = P2{ctr.x + x, ctr.y + y}; } c.count("hooks_tried");
            }
            if (r.p(0.4)) hr = reversed(hr);
            if (r.p(0.15)) { LD room = 0; P2 q; Domain d; d.outer = cur; if (randomInside(r, d, 0.03 * size, q)) { room = d.boundaryDist(q); double sc = (double)(0.9L * room / (1.5 * rad)); P2 z, w; for (auto& p : hr) p = P2{q.x + sc * (p.x - ctr.x), q.y + sc * (p.y - ctr.y)}; (void)z; (void)w; } }
        }
        LD cx, cy; ringCentroid(hr, cx, cy); P2 cen = {(double)cx, (double)cy};
        if (ringClearance(hr) < std::max(5e-3 * size, 40 * grid)) { c.count("skipped_narrow"); continue; }
        int parts = 0, rel = relation(cur, hr, std::max(4e-3 * size, 20 * grid), parts);
        bool nearKept = false; for (auto& q : kept) nearKept = nearKept || ringRingDist(q, hr) < eps || ringContains(q, hr[0]) || ringContains(hr, q[0]);
        if (rel == UNSURE || nearKept) { c.count("skipped_undecided"); continue; }
        LD cenD = ringBoundaryDist(hr, cen); bool onOwn = cenD < 1e-12 * size && size < 2000; if (rel == INSIDE && cenD < 1e-3 * size && !onOwn) { c.count("skipped_centroid"); continue; }
        c.desc += circ ? strf(" circular hole (%.17g,%.17g) r=%.17g grade %d", ctr.x, ctr.y, rad, cfg->getDiscretizationGrade()) : " hole " + ringStr(hr); h = ringHash(h, hr);
        std::vector<Point> before = reg.getRegionPoints(); size_t nh = reg.getHoles().size(); bool threw = false; if (r.p(0.5)) { std::vector<Point> np = toPts(cur); reg.getDiameter(np); if (r.p(0.5)) { reg.getCentroid(np); reg.getArea(np); } }
        std::vector<Point> hp = toPts(hr);
        try { if (circ) reg.addHole(CircularHole(toPt(ctr), rad)); else reg.addHole(PolygonalHole(hp)); } catch (std::invalid_argument&) { threw = true; }
        std::vector<Point> after = reg.getRegionPoints(); any = true;
        size_t holePts = 0; for (auto& q : kept) holePts += q.size();
        if (rel == COVERS || (rel == CROSS && parts != 1)) {
            c.count(rel == COVERS ? "covering_holes" : "splitting_holes");
            c.check(threw, "split-accepted", "a hole that leaves %d parts of the region is accepted", parts);
            c.check(after.size() == before.size() && reg.getHoles().size() == nh, "split-changed", "a rejected hole changed the region");
            for (size_t q = 0; q < before.size(); q++) c.check(after[q].getX() == before[q].getX() && after[q].getY() == before[q].getY(), "split-changed", "a rejected hole changed the region");
            continue;
        }
        c.check(!threw, "rejected", "a hole (relation %d, %d parts left) is rejected", rel, parts);
        if (rel == INSIDE) {
            c.count("inner_holes"); kept.push_back(hr);
            c.check(reg.getHoles().size() == nh + 1, "hole-count", "%zu holes after adding hole %zu inside", reg.getHoles().size(), nh + 1);
            std::vector<Point> got = reg.getHoles().back().getPoints(); c.check(got.size() == hr.size(), "hole-points", "the hole has %zu points instead of %zu", got.size(), hr.size());
            for (size_t q = 0; q < hr.size(); q++) c.check(dist(toP2(got[q]), hr[q]) < 1e-9 * size, "hole-points", "point %zu of the hole", q);
            Point gc = reg.getHoles().back().getCenter(); P2 want = circ ? ctr : cen; if (!circ && (onOwn || !ringContains(hr, cen))) { c.count("hooks_with_centroid_on_a_side", onOwn); c.count("hooked_holes"); c.check(ringContains(hr, toP2(gc)) && ringBoundaryDist(hr, toP2(gc)) > 1e-6 * size, "hole-center", "centre %s of the hole is not inside it", ptStr(toP2(gc)).c_str()); } else c.check(dist(toP2(gc), want) < 1e-9 * size * (1 + size * size / std::fabs(ringArea(hr))), "hole-center", "centre %s of the hole, should be %s", ptStr(toP2(gc)).c_str(), ptStr(want).c_str());
            c.check(after.size() == before.size() + hr.size(), "inner-points", "number of points after adding an inner hole");
            for (size_t q = 0; q < before.size(); q++) c.check(after[q].getX() == before[q].getX() && after[q].getY() == before[q].getY(), "inner-changed", "an inner hole changed the other points");
            for (int q = 0; q < 12; q++) { P2 z = {ctr.x + r.u(-2, 2) * rad, ctr.y + r.u(-2, 2) * rad}; if (ringBoundaryDist(hr, z) < 1e-4 * size) continue; c.check(reg.getHoles().back().containsPoint(toPt(z)) == ringContains(hr, z), "hole-contains", "the hole %s point %s", ringContains(hr, z) ? "does not contain" : "contains", ptStr(z).c_str()); c.count("hole_membership"); }
            for (int q = 0; q < 3; q++) { int e = r.i(0, (int)hr.size() - 1); P2 a = hr[e], b = hr[(e + 1) % hr.size()]; double t = r.u(); Point z(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)); if (1e-15 * (1 + 4 * size) * (1 + 4 * size) < 0.05 * cfg->getTolerance()) c.check(reg.getHoles().back().containsPoint(z), "hole-contains", "the hole does not contain its boundary point %s", ptStr(toP2(z)).c_str()); }
        } else {
            c.count(rel == CROSS ? "cutting_holes" : "outer_holes");
            c.check(reg.getHoles().size() == nh, "hole-count", "a hole that is not inside was kept");
            c.check(after.size() >= 3 + holePts, "cut-points", "%zu points left", after.size());
            Ring now; for (size_t q = 0; q + holePts < after.size(); q++) now.push_back(toP2(after[q]));
            // the outline is the difference: area and membership
            LD cutA = rel == CROSS ? clipArea(cur, hr) : 0, wantA = std::fabs(ringArea(cur)) - cutA, tolA = 6 * grid * (ringPerimeter(cur) + ringPerimeter(hr)) + 1e-9L * size * size;
            c.check(std::fabs(std::fabs(ringArea(now)) - wantA) <= tolA, "cut-area", "the area is %.12Lg, should be %.12Lg", std::fabs(ringArea(now)), wantA);
            c.check(ringSimple(now, 0), "cut-simple", "the region crosses itself: %s", ringStr(now).c_str());
            // every corner of the result is a corner of one of the two or a crossing, and every corner that stays is there
            for (auto& p : now) { LD d = std::min(ringBoundaryDist(cur, p), ringBoundaryDist(hr, p)); c.check(d <= eps, "cut-corner", "corner %s is %.3Lg away from both outlines", ptStr(p).c_str(), d); }
            for (int w = 0; w < 2; w++) for (auto& p : w ? hr : cur) { bool stays = w ? ringContains(cur, p) : rel == APART || !ringContains(hr, p); if (stays) c.check(ringBoundaryDist(now, p) <= eps, "cut-lost", "corner %s is no longer on the boundary", ptStr(p).c_str()); }
            P2 l2, h2; bbox(cur, l2, h2);
            for (int q = 0; q < 25; q++) {
                P2 z = {r.u(l2.x, h2.x), r.u(l2.y, h2.y)}; if (r.p(0.4)) z = P2{ctr.x + r.u(-1.5, 1.5) * rad, ctr.y + r.u(-1.5, 1.5) * rad};
                if (ringBoundaryDist(cur, z) < eps || ringBoundaryDist(hr, z) < eps) continue;
                bool want = ringContains(cur, z) && !ringContains(hr, z); c.count(want ? "samples_in" : "samples_out");
                c.check(ringContains(now, z) == want, "cut-membership", "point %s is %s the region, should be %s", ptStr(z).c_str(), want ? "outside" : "in", want ? "in" : "outside");
                if (ringBoundaryDist(now, z) > 1e-3 * size) c.check(reg.containsPoint(toPt(z)) == want, "cut-contains", "Region::containsPoint(%s) is %d", ptStr(z).c_str(), (int)!want);
            }
            std::vector<Point> np = toPts(now); LD ga = ringArea(now); c.check(std::fabs(reg.getArea(np) - ga) <= 1e-11L * (size * size * 30 + 1) && reg.numberOfSides() == (int)now.size(), "cut-measures", "area or sides of the changed region"); LD gd = ringDiameter(now), gx, gy; ringCentroid(now, gx, gy); c.check(std::fabs(reg.getDiameter(np) - gd) <= 1e-11L * size, "cut-diameter", "diameter %.17g of the changed region, should be %.17Lg", reg.getDiameter(np), gd); Point gq = reg.getCentroid(np); c.check(std::fabs(gq.getX() - gx) + std::fabs(gq.getY() - gy) <= 1e-9L * size * (1 + size * size / std::fabs(ga)), "cut-centroid", "centroid of the changed region");
            BoundingBox bb = reg.getBox(); P2 l3, h3; bbox(now, l3, h3); c.check(bb.xMin() == l3.x && bb.xMax() == h3.x && bb.yMin() == l3.y && bb.yMax() == h3.y, "cut-box", "bounding box of the changed region");
            if (rel == CROSS) c.check(ga > 0, "cut-orientation", "the changed region is clockwise");
            cur = now;
        }
        // points and segments: the outline first, then each hole
        std::vector<Point> all = reg.getRegionPoints(); size_t at = cur.size(); c.check(sameRing(all, cur), "points", "the region's own points come first");
        for (auto& q : kept) { for (size_t z = 0; z < q.size(); z++) c.check(at + z < all.size() && dist(toP2(all[at + z]), q[z]) < 1e-9 * size, "points", "points of the holes"); at += q.size(); }
        c.check(at == all.size(), "points", "%zu points, should be %zu", all.size(), at);
        std::vector<IndexSegment> sg; reg.getSegments(sg); std::vector<std::pair<int, int>> want; int off = 0; std::vector<size_t> lens = {cur.size()}; for (auto& q : kept) lens.push_back(q.size());
        for (size_t l : lens) { for (size_t z = 0; z < l; z++) want.push_back({off + (int)z, off + (int)((z + 1) % l)}); off += (int)l; }
        c.check(sg.size() == want.size(), "segments", "%zu segments, should be %zu", sg.size(), want.size());
        for (size_t z = 0; z < sg.size(); z++) c.check(sg[z].getFirst() == want[z].first && sg[z].getSecond() == want[z].second, "segments", "segment %zu is %d-%d", z, sg[z].getFirst(), sg[z].getSecond());
    }
    if (r.p(0.2)) { Region copy(reg), asg; asg = reg; size_t m = reg.getRegionPoints().size(); reg.cleanInternalHoles(); c.check(reg.getHoles().empty() && reg.getRegionPoints().size() == cur.size(), "clean-holes", "holes after cleanInternalHoles"); c.check(copy.getHoles().size() == kept.size() && copy.getRegionPoints().size() == m && asg.getRegionPoints().size() == m, "copy-holes", "a copy lost its holes"); }
    if (any) c.mark(h); if (any && c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 900));
}
// area of the intersection of two simple polygons, by integrating over horizontal slabs between all y where something happens
static LD clipArea(const Ring& a, const Ring& b) {
    std::vector<LD> ys; for (auto& p : a) ys.push_back(p.y); for (auto& p : b) ys.push_back(p.y);
    const Ring* R[2] = {&a, &b};
    for (int w = 0; w < 1; w++) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) {
        P2 p = a[i], q = a[(i + 1) % a.size()], r = b[j], s = b[(j + 1) % b.size()]; LD o1 = orient(p, q, r), o2 = orient(p, q, s), o3 = orient(r, s, p), o4 = orient(r, s, q);
        if ((o1 > 0) == (o2 > 0) || (o3 > 0) == (o4 > 0)) continue; LD t = o3 / (o3 - o4); ys.push_back(p.y + t * ((LD)q.y - p.y));
    }
    std::sort(ys.begin(), ys.end()); LD area = 0;
    for (size_t k = 0; k + 1 < ys.size(); k++) {
        LD y0 = ys[k], y1 = ys[k + 1], ym = (y0 + y1) / 2; if (y1 - y0 <= 0) continue;
        // on the middle line, the crossings of both; lengths are linear inside the slab, so the middle line gives the exact area
        std::vector<std::pair<LD, int>> x;
        for (int w = 0; w < 2; w++) for (size_t i = 0; i < R[w]->size(); i++) { P2 p = (*R[w])[i], q = (*R[w])[(i + 1) % R[w]->size()]; if ((p.y <= ym) == (q.y <= ym)) continue; x.push_back({p.x + (ym - p.y) / ((LD)q.y - p.y) * ((LD)q.x - p.x), w}); }
        std::sort(x.begin(), x.end()); bool in[2] = {false, false};
        for (size_t i = 0; i + 1 < x.size(); i++) { in[x[i].second] = !in[x[i].second]; if (in[0] && in[1]) area += (x[i + 1].first - x[i].first) * (y1 - y0); }
    }
    return area;
}
static std::string scratchFile(const char* base) { return strf("%s_%d.txt", base, (int)getpid()); }
SUITE(seeds, 0) {
    Rng& r = c.rng; SceneOpts so; so.size = r.p(0.5) ? 10 : r.p(0.5) ? 1 : 100; if (so.size == 1) DelynoiConfig::instance()->setTolerance(1e-7);
    so.edgeSeeds = false; so.maxSeeds = 1; Scene s = genScene(r, so); double size = s.size; c.desc = s.desc;
    // the region, or one whose seeds were set before the holes
    Region reg = s.region(); P2 lo, hi; bbox(s.outer, lo, hi);
    struct E { P2 p; int want; };                       // want: 1 in, 0 out, -1 too close to the boundary to tell
    std::vector<E> model; uint64_t h = s.hash(); bool pending = false;
    double tol = DelynoiConfig::instance()->getTolerance(), margin = 1e-3 * size;
    auto axis = [&](const P2& a, const P2& b) { return a.x == b.x || a.y == b.y; };
    auto cls = [&](const P2& p) {
        for (auto& q : s.dom.holes) if (ringBoundaryDist(q, p) < margin) { for (size_t k = 0; k < q.size(); k++) if (axis(q[k], q[(k + 1) % q.size()]) && distSeg(p, q[k], q[(k + 1) % q.size()]) == 0) return 0; return -1; }
        if (ringBoundaryDist(s.outer, p) < margin) { for (size_t k = 0; k < s.outer.size(); k++) if (axis(s.outer[k], s.outer[(k + 1) % s.outer.size()]) && distSeg(p, s.outer[k], s.outer[(k + 1) % s.outer.size()]) == 0) return 1; return -1; }
        return s.dom.inside(p) ? 1 : 0;
    };
    auto rnd = [&]() {
        P2 p = {r.u(lo.x - 0.15 * size, hi.x + 0.15 * size), r.u(lo.y - 0.15 * size, hi.y + 0.15 * size)}; int k = r.i(0, 12);
        if (k >= 10) {                                          // level with corners, where rays from the point meet them
            const Ring& q = !s.dom.holes.empty() && r.p(0.6) ? r.pick(s.dom.holes) : s.outer; P2 a, b; bbox(q, a, b); double w = b.x - a.x, v = b.y - a.y; p = P2{r.u(a.x - 0.3 * w, b.x + 0.3 * w), r.u(a.y - 0.3 * v, b.y + 0.3 * v)};
            if (k != 11) p.y = r.pick(q).y; if (k != 10) p.x = r.pick(q).x; c.count("level_with_corners");
        }
        if (k == 0) p = r.pick(s.outer);
        if (k == 1) { int e = r.i(0, (int)s.outer.size() - 1); P2 a = s.outer[e], b = s.outer[(e + 1) % s.outer.size()]; double t = r.u(); p = P2{a.x == b.x ? a.x : a.x + t * (b.x - a.x), a.y == b.y ? a.y : a.y + t * (b.y - a.y)}; }
        if (k == 2 && !s.dom.holes.empty()) { const Ring& q = r.pick(s.dom.holes); int e = r.i(0, (int)q.size() - 1); P2 a = q[e], b = q[(e + 1) % q.size()]; double t = r.u(); p = P2{a.x == b.x ? a.x : a.x + t * (b.x - a.x), a.y == b.y ? a.y : a.y + t * (b.y - a.y)}; }
        if (k == 3 && !s.dom.holes.empty()) { const Ring& q = r.pick(s.dom.holes); P2 a, b; bbox(q, a, b); p = P2{r.u(a.x, b.x), r.u(a.y, b.y)}; }
        if (k == 4 && !model.empty()) p = r.pick(model).p;      // again
        return p;
    };
    auto compare = [&](const Region& g, const std::vector<E>& m, const char* after) {
        std::vector<Point> got = const_cast<Region&>(g).getSeedPoints(); size_t at = 0;
        for (auto& e : m) {
            bool here = at < got.size() && got[at].getX() == e.p.x && got[at].getY() == e.p.y;
            if (e.want == 0) continue;
            if (e.want == 1) { c.check(here, "seed-lost", "after %s seed %s is missing at place %zu (%zu seeds)", after, ptStr(e.p).c_str(), at, got.size()); at++; }
            else if (here) at++;
        }
        c.check(at == got.size(), "seed-extra", "after %s there is a seed %s that should not be there", after, at < got.size() ? ptStr(toP2(got[at])).c_str() : "");
        if (!pending) for (auto& q : got) c.check(cls(toP2(q)) != 0, "seed-outside", "after %s seed %s is outside", after, ptStr(toP2(q)).c_str());
    };
    int steps = r.i(1, 6);
    for (int k = 0; k < steps; k++) {
        int op = r.i(0, 10); const char* nm = "";
        if (op < 8) { pending = false; for (auto& e : model) e.want = cls(e.p); }       // these filter all seeds
        if (op < 4) {
            nm = "addSeedPoints"; std::vector<Point> v; int n = r.p(0.1) ? 0 : r.p(0.02) ? r.i(100, 1200) : r.i(1, 30); for (int q = 0; q < n; q++) { P2 p = rnd(); v.push_back(toPt(p)); model.push_back({p, cls(p)}); h = hashd(hashd(h, p.x), p.y); }
            size_t sz = v.size(); reg.addSeedPoints(v); c.check(v.size() == sz, "input-changed", "the list given was changed"); c.count("lists_added");
        } else if (op < 6) {
            nm = "addSeedsFromFile"; int n = r.p(0.1) ? 0 : r.p(0.02) ? r.i(100, 700) : r.i(1, 20); std::string f = scratchFile("seeds"), path = utilities::getPath() + f; std::ofstream out(path); out.precision(17); out << n << (r.p(0.2) ? " " : "") << "\n";
            for (int q = 0; q < n; q++) { P2 p = rnd(); out << (r.p(0.1) ? "  " : "") << p.x << (r.p(0.8) ? " " : "\t  ") << p.y << (r.p(0.1) ? " \n" : "\n"); model.push_back({p, cls(p)}); h = hashd(hashd(h, p.x), p.y); }
            out.close(); reg.addSeedsFromFile(f); unlink(path.c_str()); c.count("files_added");
        } else if (op < 8) {
            nm = "generateSeedPoints"; bool fine = r.p(0.02); int nx = r.i(1, fine ? 50 : 9), ny = r.i(1, fine ? 50 : 9); double k2 = r.u(0.9, 1.1); bool sc = r.p(0.3);
            Functor *fx = sc ? functions::uniform(k2) : functions::constant(), *fy = functions::constant(); PointGenerator g(fx, fy); reg.generateSeedPoints(g, nx, ny); delete fx; delete fy;
            for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) {
                double dx = nx > 1 ? (hi.x - lo.x) / (nx - 1) : 0, dy = ny > 1 ? (hi.y - lo.y) / (ny - 1) : 0; P2 p = {(lo.x + j * dx) * (sc ? k2 : 1.0), lo.y + i * dy}; model.push_back({p, -2}); }
            // the exact coordinates are read back: rounding of the generator is not this check's subject
            std::vector<Point> got = reg.getSeedPoints(); size_t at = 0; std::vector<E> keep;
            for (auto& e : model) {
                if (e.want == -2) { int w = ringBoundaryDist(s.outer, e.p) < margin ? -1 : cls(e.p); bool near = at < got.size() && std::fabs(got[at].getX() - e.p.x) < 1e-9 * size && std::fabs(got[at].getY() - e.p.y) < 1e-9 * size;
                    if (w == 1) c.check(near, "seed-lost", "after generateSeedPoints point %s of the grid is missing at place %zu", ptStr(e.p).c_str(), at);
                    if (w == 0) c.check(true, "", ""); if (w == 0) { c.count("generated_outside"); continue; }
                    if (near) { keep.push_back({toP2(got[at]), w}); at++; } }
                else { if (e.want != 0 && at < got.size() && got[at].getX() == e.p.x && got[at].getY() == e.p.y) { at++; keep.push_back(e); } else if (e.want != -1) keep.push_back(e); } }
            model = keep; c.count("rules_added");
        } else if (op == 8) { nm = "cleanSeedPoints"; reg.cleanSeedPoints(); model.clear(); c.count("cleanings"); }
        else if (op == 10) {
            nm = "addHole"; Ring q = genHoleInside(r, s.dom, 0.03 * size, r.p(0.5)); if (q.empty() || s.dom.holes.size() >= 4) continue;
            if (r.p(0.4)) q = reversed(q); std::vector<Point> hp = toPts(q); reg.addHole(PolygonalHole(hp)); s.dom.holes.push_back(q); c.count("holes_added_later"); c.desc += " hole " + ringStr(q); for (auto& p : q) h = hashd(hashd(h, p.x), p.y);
            pending = true; for (auto& e : model) if (cls(e.p) != 1) e.want = -1;         // seeds in the new hole go when seeds are filtered next
        } else { nm = "copy"; Region a(reg), b; b = reg; compare(a, model, "copying"); compare(b, model, "assigning"); reg.cleanSeedPoints(); compare(a, model, "cleaning the original"); reg = a; c.count("copies"); }
        c.desc += strf(" %s", nm);
        compare(reg, model, nm);
        // what was filtered out is gone for good
        std::vector<E> left; for (auto& e : model) { if (e.want == 0) { c.count("seeds_rejected"); continue; } if (e.want == -1) { bool in = false; for (auto& q : reg.getSeedPoints()) in = in || (q.getX() == e.p.x && q.getY() == e.p.y); if (!in) continue; } else c.count("seeds_kept"); left.push_back(e); } model = left;
    }
    { // a file that is not there leaves everything as it was
        bool threw = false; try { reg.addSeedsFromFile("no_such_file_" + std::to_string(c.idx)); } catch (std::runtime_error&) { threw = true; } c.check(threw, "missing-file", "a file that does not exist is accepted"); compare(reg, model, "a missing file"); }
    (void)tol; c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 900));
}
// user-defined rule
struct Square : Functor { int calls = 0; double apply(double x) { calls++; return x * x + calls; } };
SUITE(generate, 0) {
    Rng& r = c.rng; double x0 = r.u(-50, 50), y0 = r.u(-50, 50), w = r.u(0.5, 60), hh = r.u(0.5, 60); if (r.p(0.4)) { x0 = r.i(-20, 20); y0 = r.i(-20, 20); w = r.i(1, 30); hh = r.i(1, 30); }
    if (r.p(0.25)) { double sc = std::pow(10.0, r.u(-5, 5)); x0 *= r.p(0.3) ? 1 : sc; y0 *= r.p(0.3) ? 1 : sc; w *= sc; hh *= r.p(0.7) ? sc : 1; }
    BoundingBox box(Point(x0, y0), Point(x0 + w, y0 + hh)); w = box.xMax() - box.xMin(); hh = box.yMax() - box.yMin();
    int nX = r.p(0.1) ? 1 : r.p(0.02) ? r.i(25, 200) : r.i(1, 24), nY = r.p(0.1) ? 1 : r.p(0.02) ? r.i(25, 200) : r.i(1, 24); if (r.p(0.03)) nX = 0;
    double dX = nX > 1 ? w / (nX - 1) : 0, dY = nY > 1 ? hh / (nY - 1) : 0;
    struct F { Functor* f; int kind; double a, b, p; Functor* inner; int ikind; double ia; };
    auto det = [](int kind, double a, double b, double p, double x) -> LD {
        switch (kind) { case 0: return x; case 1: return (LD)x * a; case 2: return (LD)a * std::sin((LD)M_PIl * b * x + (LD)M_PIl / 180 * p); case 3: return (LD)a * std::cos((LD)M_PIl * b * x + (LD)M_PIl / 180 * p); default: return x; } };
    std::string names;
    auto make = [&](bool forX) {
        F f{}; f.kind = r.i(0, 9); if (f.kind == 5 && !(forX && nX >= 2)) f.kind = 0; f.a = r.u(-5, 5); f.b = r.u(0.05, 4); f.p = r.u(-360, 360); double mn = r.i(-20, 20), mx = mn + r.i(0, 20); f.inner = nullptr;
        static const char* N[] = {"constant", "uniform", "sine", "cosine", "displace_points", "constantAlternating", "random_double", "random_integer", "noise", "custom"}; names += strf(" %s(%g,%g,%g)", N[f.kind], f.a, f.b, f.p);
        switch (f.kind) {
            case 0: f.f = functions::constant(); break; case 1: f.f = functions::uniform(f.a); break; case 2: f.f = functions::sine(f.a, f.b, f.p); break; case 3: f.f = functions::cosine(f.a, f.b, f.p); break;
            case 4: f.f = functions::displace_points(f.a); break; case 5: f.f = functions::constantAlternating(); break;
            case 6: f.a = mn; f.b = mx + (mn == mx); f.f = functions::random_double(f.a, f.b); break; case 7: f.a = mn; f.b = mx; f.f = functions::random_integer(mn, mx); break;
            case 8: f.ikind = r.i(0, 2); f.ia = r.u(-3, 3); f.inner = f.ikind == 0 ? functions::constant() : f.ikind == 1 ? functions::uniform(f.ia) : functions::sine(f.ia, 0.3, 40); f.p = r.i(0, 1); f.a = r.i(0, 5); f.b = f.a + r.i(1, 9); f.f = f.p ? noise::random_integer_noise(f.inner, f.a, f.b) : noise::random_double_noise(f.inner, f.a, f.b); break;
            default: f.f = new Square; }
        return f; };
    int mode = r.i(0, 2); F fx{}, fy{}; PointGenerator g; names += mode == 0 ? " x:" : mode == 1 ? " y:" : " both:";
    if (mode == 0) { fy = make(false); g = PointGenerator(fy.f, functions::independent_variable::x); } else if (mode == 1) { fx = make(false); g = PointGenerator(fx.f, functions::independent_variable::y); } else { fx = make(true); fy = make(false); g = PointGenerator(fx.f, fy.f); }
    c.desc = strf("box (%.17g,%.17g) %.17g x %.17g, %d x %d,", box.xMin(), box.yMin(), w, hh, nX, nY) + names;
    std::vector<Point> v; int pre = r.i(0, 3); for (int k = 0; k < pre; k++) v.push_back(Point(k, -k));
    g.generate(v, box, nX, nY);
    c.check((int)v.size() == pre + nX * nY, "count", "%zu points were generated, should be %d", v.size() - pre, nX * nY);
    for (int k = 0; k < pre; k++) c.check(v[k].getX() == k && v[k].getY() == -k, "kept", "points already in the list changed");
    double big = std::fabs(box.xMin()) + std::fabs(box.yMin()) + w + hh + 10; LD eps = 1e-11L * big * 10;
    struct St { int calls = 0; double delta = 0; long plus = 0, minus = 0; std::set<double> vals; } sx, sy;
    auto judge = [&](const F& f, St& s, LD base, double in, double got, int row, const char* what) {
        // base: what is added to the value; in: the argument
        LD val = (LD)got - base; s.calls++;
        switch (f.kind) {
            case 0: case 1: case 2: case 3: { LD want = det(f.kind, f.a, f.b, f.p, in); c.check(std::fabs(val - want) <= eps, "value", "%s is %.17g, should be %.17Lg", what, got, want + base); break; }
            case 4: { LD d = val - in; bool on = s.calls % 2 == 1; if (!on) c.check(std::fabs(d) <= eps, "displace", "%s: an odd point is displaced by %.17Lg", what, d); else { if (s.calls == 1) { s.delta = (double)d; c.check(std::fabs(d - f.a) <= eps || std::fabs(d - f.a / 2) <= eps, "displace", "%s: displaced by %.17Lg", what, d); } c.check(std::fabs(d - s.delta) <= eps, "displace", "%s: displaced by %.17Lg, the others by %.17g", what, d, s.delta); } break; }
            case 5: { LD want = in + (row % 2 ? dX / 2 : 0); c.check(std::fabs(val - want) <= eps, "alternating", "%s of row %d is %.17g, should be %.17Lg", what, row, got, want); break; }
            case 6: c.check(val >= f.a - eps && val <= f.b + eps, "random-range", "%s %.17g is not in [%g,%g]", what, (double)val, f.a, f.b); s.vals.insert(got); break;
            case 7: c.check(val >= f.a - eps && val <= f.b + eps && std::fabs(val - std::round(val)) <= eps, "random-range", "%s %.17g is not an integer in [%g,%g]", what, (double)val, f.a, f.b); s.vals.insert((double)std::round(val)); break;
            case 8: { LD want = det(f.ikind == 2 ? 2 : f.ikind, f.ia, 0.3, 40, in), d = val - want; c.check(std::fabs(d) >= f.a - eps && std::fabs(d) <= f.b + eps, "noise-range", "%s: the noise is %.17Lg, not in [%g,%g]", what, d, f.a, f.b); if (f.p) c.check(std::fabs(d - std::round(d)) <= eps, "noise-integer", "%s: the integer noise is %.17Lg", what, d); if (d > 0) s.plus++; else s.minus++; break; }
            default: { LD want = (LD)in * in + s.calls; c.check(std::fabs(val - want) <= 1e-9L * (1 + std::fabs(want)), "custom", "%s is %.17g, should be %.17Lg", what, (double)val, want); }
        } };
    for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++) {
        const Point& p = v[pre + i * nX + j]; double x = box.xMin() + j * dX, y = box.yMin() + i * dY; c.count("points");
        if (mode == 0) { c.check(std::fabs(p.getX() - x) <= eps, "grid-x", "x of point %d of row %d is %.17g, should be %.17g", j, i, p.getX(), x); judge(fy, sy, y, x, p.getY(), i, "y"); }
        else if (mode == 1) { c.check(std::fabs(p.getY() - y) <= eps, "grid-y", "y of point %d of row %d is %.17g, should be %.17g", j, i, p.getY(), y); judge(fx, sx, x, y, p.getX(), i, "x"); }
        else { judge(fx, sx, 0, x, p.getX(), i, "x"); judge(fy, sy, 0, y, p.getY(), i, "y"); }
    }
    for (auto q : {std::make_pair(&fx, &sx), std::make_pair(&fy, &sy)}) {
        if (q.first->kind == 6 && q.first->f && q.second->calls >= 40) { c.check((int)q.second->vals.size() > q.second->calls / 2, "random-varies", "%zu different values in %d draws", q.second->vals.size(), q.second->calls); }
        if (q.first->kind == 7 && q.first->f && q.second->calls >= 400 && q.first->b - q.first->a <= 6) c.check((int)q.second->vals.size() == (int)(q.first->b - q.first->a) + 1, "random-covers", "%zu different values in %d draws from [%g,%g]", q.second->vals.size(), q.second->calls, q.first->a, q.first->b);
        if (q.first->kind == 8 && q.first->f && q.second->calls >= 80 && (!q.first->p || q.first->b > q.first->a)) c.check(q.second->plus > 0 && q.second->minus > 0, "noise-sign", "all noise has the same sign"); }
    for (F* f : {&fx, &fy}) { if (f->kind == 9 && f->f) delete (Square*)f->f; }
    uint64_t h = hashd(hashd(hashmix(1, nX * 100 + nY), w), x0); for (char ch : names) h = hashmix(h, ch); if (nX * nY) c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc);
}
SUITE(config, 0) {
    Rng& r0 = c.rng; DelynoiConfig* cfg = DelynoiConfig::instance(); int steps = r0.i(2, 8); uint64_t h = 1, inputs = 0; std::vector<Circle> kept; int grade = 12, prec = 6, scale = 100000; double tol = 1e-5;
    c.check(cfg->getDiscretizationGrade() == 12 && cfg->getTolerance() == 1e-5 && cfg->getScale() == 100000 && cfg->getPrecision() == 6, "defaults", "defaults");
    for (int s = 0; s < steps; s++) {
        DelynoiConfig* other = DelynoiConfig::instance(); c.check(other == cfg, "instance", "there are two configurations");
        int op = r0.i(0, 3);
        if (op == 0) { grade = r0.p(0.3) ? r0.i(3, 400) : r0.i(3, 40); cfg->setDiscretizationGrade(grade); } if (op == 1) { if (r0.p(0.3)) { double big = r0.p(0.2) ? 0 : std::pow(10.0, r0.u(-1, 4)); cfg->setTolerance(big); P2 a = {r0.u(-1, 1), r0.u(-1, 1)}; Point near(a.x + big * r0.u(-0.99, 0.99), a.y + big * r0.u(-0.99, 0.99)), off(a.x + (big + 1e-6) * r0.u(1.01, 20), a.y); c.check(cfg->getTolerance() == big && (toPt(a) == near) == (big > 0) && !(toPt(a) == off), "tolerance-wide", "tolerance %g: points are compared with another one", big); c.count("wide_tolerances"); } tol = std::pow(10.0, -r0.u(1, 12)); cfg->setTolerance(tol); } if (op == 2) { scale = (int)std::pow(10.0, r0.u(2, 7)); cfg->setScale(scale); }
        if (op == 3) { if (r0.p(0.5)) { prec = r0.i(0, 17); cfg->setPrecision(prec); } else { Precision::precision p = r0.pick(std::vector<Precision::precision>{Precision::small, Precision::mid, Precision::large}); cfg->setPrecision(p); prec = p; c.check((p == Precision::small && prec == 6) || (p == Precision::mid && prec == 10) || (p == Precision::large && prec == 16), "precision", "named precision"); } }
        c.desc += strf(" grade %d tolerance %g scale %d precision %d;", grade, tol, scale, prec); h = hashmix(hashmix(hashd(h, tol), grade), prec * 31 + scale);
        c.check(other->getDiscretizationGrade() == grade && other->getTolerance() == tol && other->getScale() == scale && other->getPrecision() == prec, "getters", "the configuration is not what was set");
        // what is asked: often the same as with the settings before
        bool same = s && r0.p(0.4); if (!same) inputs = r0.next(); else c.count("asked_again"); Rng r(inputs);
        if (same) { std::vector<Point> v = kept[0].discretizeCircle(); c.check((int)v.size() == grade, "circle-count", "a circle made before has %zu points, should be %d", v.size(), grade); }
        // circles and arcs
        double rad = r.u(0.1, 50); P2 ctr = {r.u(-50, 50), r.u(-50, 50)}; LD eps = 1e-11L * 200;
        Circle ci(rad, toPt(ctr)); kept.assign(1, ci); std::vector<Point> v = ci.discretizeCircle(); CircularHole ch(toPt(ctr), rad); std::vector<Point> hv = ch.getPoints();
        c.check((int)v.size() == grade && (int)hv.size() == grade, "circle-count", "a circle has %zu points, a circular hole %zu, should be %d", v.size(), hv.size(), grade);
        for (int k = 0; k < grade; k++) { LD t = 2 * (LD)M_PIl * k / grade; P2 w = {(double)(ctr.x + rad * std::cos(t)), (double)(ctr.y + rad * std::sin(t))}; c.check(dist(toP2(v[k]), w) <= eps && dist(toP2(hv[k]), w) <= eps, "circle-point", "point %d of the circle is %s, should be %s", k, ptStr(toP2(v[k])).c_str(), ptStr(w).c_str()); }
        Point hc = ch.Hole::getCenter(); c.check(dist(toP2(hc), ctr) <= eps, "circle-center", "centre of a circular hole");
        std::vector<IndexSegment> sg; int off = r.i(0, 50); ch.getSegments(sg, off); c.check((int)sg.size() == grade, "circle-sides", "sides of a circular hole"); for (int k = 0; k < grade; k++) c.check(sg[k].getFirst() == off + k && sg[k].getSecond() == off + (k + 1) % grade, "circle-sides", "side %d of a circular hole", k);
        double a0 = r.u(-360, 360), a1 = a0 + r.u(-360, 360); std::vector<Point> arc = delynoi_utilities::generateArcPoints(toPt(ctr), rad, a0, a1);
        c.check((int)arc.size() == grade + 1, "arc-count", "an arc has %zu points, should be %d", arc.size(), grade + 1);
        for (int k = 0; k <= grade; k++) { LD t = (LD)M_PIl / 180 * (a0 + ((LD)a1 - a0) * k / grade); P2 w = {(double)(ctr.x + rad * std::cos(t)), (double)(ctr.y + rad * std::sin(t))}; c.check(dist(toP2(arc[k]), w) <= eps, "arc-point", "point %d of the arc is %s, should be %s", k, ptStr(toP2(arc[k])).c_str(), ptStr(w).c_str()); }
        // comparison tolerance
        Point A(r.u(-1, 1), r.u(-1, 1)); for (int q = 0; q < 6; q++) { double f = q % 2 ? r.u(1.01, 20) : r.u(0, 0.99), fy = r.u(0, 0.99), sg2 = r.p(0.5) ? 1 : -1; Point B(A.getX() + sg2 * f * tol, A.getY() + fy * tol); if (q >= 4) B = Point(A.getX() + fy * tol, A.getY() + sg2 * f * tol); if (tol < 1e-13) break;
            c.check((A == B) == (f < 1), "tolerance", "points %.17g apart compare %d with tolerance %g", f * tol, (int)(A == B), tol); UniqueList<Point> u; u.push_back(A); c.check(u.push_back(B) == (f < 1 ? 0 : 1), "tolerance-list", "points %.17g apart in a UniqueList with tolerance %g", f * tol, tol); c.count(f < 1 ? "merged" : "distinct"); }
        // the same tolerance in everything that compares
        if (tol > 1e-12) {
            double t0 = r.u(-M_PI, M_PI); bool straight = r.p(0.5); P2 u = straight ? P2{1, 0} : P2{cos(t0), sin(t0)}, o = {r.u(-1, 1), r.u(-1, 1)};
            auto at = [&](double along, double aside) { return Point(o.x + along * u.x - aside * u.y, o.y + along * u.y + aside * u.x); };
            for (int q = 0; q < 4; q++) {
                bool near = q % 2; double f = (near ? r.u(0, 0.8) : r.u(1.25, 20)) * tol, sd = r.p(0.5) ? f : -f, al = r.u(0.3, 0.7); if (f > 0.2) continue;
                std::vector<Point> v = {at(0, 0), at(1, 0), at(al, sd), at(1 + f, -1), at(1 + f, 1), at(0.5, 0.7)}; Point x;
                PointSegment ps(v[0], v[1]), ps2(v[1], v[0]); IndexSegment is(0, 1);
                c.check(ps.contains(v[2]) == near && ps2.contains(v[2]) == near && is.contains(v, v[2]) == near, "tolerance-contains", "a point %g aside of a segment of length 1: contains is %d with tolerance %g", f, (int)ps.contains(v[2]), tol);
                c.check(geometry_functions::collinear(v[0], v[1], v[2]) == near, "tolerance-collinear", "three points off a line by %g are %scollinear with tolerance %g", f, near ? "not " : "", tol);
                c.check(is.intersection(v, IndexSegment(3, 4), x) == near && IndexSegment(3, 4).intersection(v, IndexSegment(0, 1), x) == near, "tolerance-intersects", "segments %g apart: intersection is %d with tolerance %g", f, (int)!near, tol);
                if (tol < 0.02) { std::vector<int> ids = {0, 1, 5}; Polygon tri(ids, v); Point e = at(al, -f); c.check(tri.inEdges(v, e) == near && tri.containsPoint(v, e) == near, "tolerance-edges", "a point %g off a triangle: inEdges is %d with tolerance %g", f, (int)!near, tol); }
                if (straight) { c.check(ps.contains(at(1 + f, 0)) == near && is.contains(v, at(-f, 0)) == near, "tolerance-end", "a point %g beyond a segment: contains is %d with tolerance %g", f, (int)!near, tol); c.check(ps.isVertex(at(f, 0)) == near, "tolerance-vertex", "a point %g from the end of a segment: isVertex is %d with tolerance %g", f, (int)!near, tol); }
                double an = r.u(1, 170); c.check((Angle(an) < Angle(an + f)) == !near && !(Angle(an + f) < Angle(an)), "tolerance-angle", "angles %g apart with tolerance %g", f, tol); c.count("tolerance_comparisons");
            }
        }
        // the scale is what a hole that cuts the outline is rounded to
        if (r.p(0.3)) {
            double k = r.u(2, 3), m = r.u(2, 3); std::vector<Point> sq = {Point(0, 0), Point(4, 0), Point(4, 4), Point(0, 4)}, hp = {Point(k, m), Point(5, m), Point(5, 5), Point(k, 5)}; double t2 = cfg->getTolerance(); cfg->setTolerance(1e-6); Region reg(sq); reg.addHole(PolygonalHole(hp)); cfg->setTolerance(t2); bool found = false; double off = 1e9;
            for (auto& p : reg.getRegionPoints()) { double dx = p.getX() * scale, dy = p.getY() * scale; c.check(std::fabs(dx - std::round(dx)) < 1e-6 * scale * 1e-3 + 1e-6 && std::fabs(dy - std::round(dy)) < 1e-6 * scale * 1e-3 + 1e-6, "scale-grid", "with scale %d a corner of the cut region is (%.17g,%.17g)", scale, p.getX(), p.getY()); double e = std::max(std::fabs(p.getX() - k), std::fabs(p.getY() - m)); off = std::min(off, e); found = found || e <= 1.0001 / scale + 1e-12; }
            c.check(found, "scale-corner", "with scale %d the corner (%.17g,%.17g) of the cut is %.3g off", scale, k, m, off); c.count("scales_seen");
        }
        // decimals
        double X = r.u(-1000, 1000), Y = std::pow(10.0, r.u(-8, 8)); char b1[400]; snprintf(b1, sizeof b1, "%.*f %.*f", prec, X, prec, Y); c.check(Point(X, Y).getString() == b1, "decimals", "a point prints as %s, should be %s", Point(X, Y).getString().c_str(), b1);
        c.check(utilities::toStringWithPrecision(X, prec) == std::string(b1).substr(0, std::string(b1).find(' ')), "decimals", "toStringWithPrecision");
        c.count("settings");
    }
    { // angles
        Rng& r = r0; double a = r.u(-720, 720); cfg->setTolerance(1e-7); double p = r.u(0.01, 179.9), q = r.u(0.01, 179.9); if (std::fabs(p - q) > 1e-5) for (int k = 0; k < 4; k++) { Angle x(p + (k & 1) * 180), y(q + (k / 2) * 180); c.check((x < y) == (p < q) && !(x < x), "angle-order", "directions %g and %g", p, q); } c.check(std::fabs(utilities::radian(a) - (LD)a * (LD)M_PIl / 180) <= 1e-12L, "radian", "radian"); { LD x = r.u(-1e3, 1e3), y = r.p(0.1) ? 0 : r.u(-1e3, 1e3), n = std::sqrt(x * x + y * y); Pair<double> v = utilities::normalize(Pair<double>(x, y)); c.check(std::fabs(v.first - x / n) < 1e-14L && std::fabs(v.second - y / n) < 1e-14L, "normalize", "(%Lg,%Lg) normalized is (%.17g,%.17g)", x, y, v.first, v.second); int lo = r.i(-50, 50), hi = lo + r.i(0, 3), seen = 0; for (int q = 0; q < 120; q++) { int z = utilities::random_integer(lo, hi); c.check(z >= lo && z <= hi, "random-integer", "%d is not from %d to %d", z, lo, hi); seen |= 1 << (z - lo); } c.check(seen == (1 << (hi - lo + 1)) - 1, "random-integer", "some value from %d to %d never comes", lo, hi); } double t = r.u(0.001, 6.2); c.check(std::fabs(utilities::degrees(t) - (LD)t * 180 / (LD)M_PIl) <= 1e-11L && std::fabs(utilities::degrees(-t) - (360 - (LD)t * 180 / (LD)M_PIl)) <= 1e-11L, "degrees", "degrees"); }
    c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 600));
}

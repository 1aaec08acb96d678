// The vendored polygon clipping library and its wrapper (C20), against winding numbers.
#include "core.h"
#include "gen.h"
#include "lib.h"
using namespace ClipperLib;

typedef std::vector<Ring> Rings;
static Path toPath(const Ring& r) { Path p; for (auto& q : r) p.push_back(IntPoint((cInt)q.x, (cInt)q.y)); return p; }
static Ring toRing(const Path& p) { Ring r; for (auto& q : p) r.push_back(P2{(double)q.X, (double)q.Y}); return r; }
static Rings toRings(const Paths& p) { Rings v; for (auto& q : p) v.push_back(toRing(q)); return v; }
static void snap(Ring& r, double g) { for (auto& p : r) { p.x = std::round(p.x / g) * g; p.y = std::round(p.y / g) * g; } Ring o; for (auto& p : r) if (o.empty() || o.back().x != p.x || o.back().y != p.y) o.push_back(p); while (o.size() > 1 && o.back().x == o[0].x && o.back().y == o[0].y) o.pop_back(); r = o; }
static int winding(const Rings& v, const P2& p) { int w = 0; for (auto& r : v) w += ringWinding(r, p); return w; }
static LD boundaryDist(const Rings& v, const P2& p) { LD d = 1e30L; for (auto& r : v) d = std::min(d, ringBoundaryDist(r, p)); return d; }
static bool filled(int w, PolyFillType t) { return t == pftEvenOdd ? w % 2 != 0 : t == pftNonZero ? w != 0 : t == pftPositive ? w > 0 : w < 0; }
static const char* OPS[] = {"intersection", "union", "difference", "xor"}; static const char* FILLS[] = {"evenodd", "nonzero", "positive", "negative"};
static bool apply(ClipType t, bool a, bool b) { return t == ctIntersection ? a && b : t == ctUnion ? a || b : t == ctDifference ? a && !b : a != b; }
static std::string ringsStr(const Rings& v) { std::string s; for (auto& r : v) s += "[" + ringStr(r) + "] "; return s; }
static uint64_t ringsHash(uint64_t h, const Rings& v) { for (auto& r : v) for (auto& p : r) h = hashd(hashd(h, p.x), p.y); return h; }

// distance within which points are not judged: crossings are rounded to integers, which moves the edges that meet there
static Ring anyRing(Rng& r, double R, double grid, const Rings& before, int style, bool* derived = nullptr) {
    Ring g; int how = r.i(0, 9);
    if (!before.empty() && how <= 2) { if (derived) *derived = true;          // made of an earlier one: the same, moved, scaled or reversed
        g = r.pick(before); int w = r.i(0, 4); P2 lo, hi; bbox(g, lo, hi); P2 m{(lo.x + hi.x) / 2, (lo.y + hi.y) / 2};
        if (w == 1) for (auto& p : g) { p.x = m.x + (p.x - m.x) * 0.5; p.y = m.y + (p.y - m.y) * 0.5; }
        if (w == 2) { double dx = r.u(-0.3, 0.3) * R, dy = r.p(0.5) ? 0 : r.u(-0.3, 0.3) * R; for (auto& p : g) { p.x += dx; p.y += dy; } }
        if (w == 3) { double dx = hi.x - lo.x; for (auto& p : g) p.x += dx; }         // side by side
        if (w == 4) for (auto& p : g) p.x = 2 * m.x - p.x;
        if (r.p(0.4)) g = reversed(g);
    } else if (style == 0 || how <= 6) {
        RingOpts o; o.size = 1; o.translate = false; o.maxN = r.p(0.1) ? 40 : 14; g = genRing(r, o); double s = R * r.u(0.2, 1.6), an = r.p(0.4) ? 0 : r.u(0, 6.3), cx = r.u(-0.6, 0.6) * R, cy = r.u(-0.6, 0.6) * R;
        for (auto& p : g) { double x = (p.x - 0.5) * s, y = (p.y - 0.5) * s; p = P2{cx + x * cos(an) - y * sin(an), cy + x * sin(an) + y * cos(an)}; }
        if (r.p(0.5)) g = reversed(g);
    } else { int n = r.i(3, 9); for (int k = 0; k < n; k++) g.push_back(P2{r.u(-R, R), r.u(-R, R)}); }      // crosses itself
    snap(g, grid); return g;
}
static bool strictlySimple = false;
static void checkResult(Ctx& c, const Rings& S, const Rings& C, const Rings& out, ClipType op, PolyFillType fs, PolyFillType fc, bool rev, LD eps, double R, const char* what, bool plain = true) {
    Rng& r = c.rng; Rings in = S; in.insert(in.end(), C.begin(), C.end());
    for (auto& g : out) for (auto& p : g) { LD d = boundaryDist(in, p); c.check(d <= eps, "corner", "%s: corner %s of the result is %.3Lg away from every given side", what, ptStr(p).c_str(), d); }
    if (plain && !strictlySimple) for (auto& g : out) c.check(g.size() >= 3, "corners", "%s (plain %d): a polygon of %zu corners", what, plain, g.size());
    for (int k = 0; k < 30; k++) {
        P2 z; int w = r.i(0, 3); if (w == 0) z = P2{r.u(-1.3, 1.3) * R, r.u(-1.3, 1.3) * R};
        else { const Ring& g = r.pick(in); const P2& a = r.pick(g); const P2& b = r.pick(g); double t = w == 1 ? 0 : r.u(), d = w == 3 ? r.u(0.5, 8) * (double)eps : R * std::pow(10.0, r.u(-3, -0.5)), an = r.u(0, 6.3); z = P2{a.x + t * (b.x - a.x) + d * cos(an), a.y + t * (b.y - a.y) + d * sin(an)}; }
        if (boundaryDist(in, z) <= eps) { c.count("samples_at_boundary"); continue; }
        bool want = apply(op, filled(winding(S, z), fs), filled(winding(C, z), fc)); int wn = winding(out, z); c.count(want ? "samples_in" : "samples_out");
        if (!plain) { int odd = std::abs(wn) % 2 * (rev ? -1 : 1); if (odd != wn) c.count("turned_polygons"); wn = odd; }   // with sides that coincide, the orientation of the result is not promised
        c.check(wn == (want ? (rev ? -1 : 1) : 0), "membership", "%s, plain %d: point %s is covered %d times by the result, should be %d", what, plain, ptStr(z).c_str(), wn, want ? (rev ? -1 : 1) : 0);
    }
}
static Paths treePaths(const PolyNode& n) { Paths v; for (PolyNode* k : n.Childs) { v.push_back(k->Contour); Paths w = treePaths(*k); v.insert(v.end(), w.begin(), w.end()); } return v; }
static int treeCount(const PolyNode& n) { int k = 0; for (PolyNode* q : n.Childs) k += 1 + treeCount(*q); return k; }
static void checkTree(Ctx& c, const PolyNode& n, int depth, bool rev, LD eps) {
    for (PolyNode* k : n.Childs) {
        c.check(k->IsHole() == (depth % 2 == 1), "tree_hole", "a polygon at depth %d of the tree says it is %sa hole", depth, k->IsHole() ? "" : "not "); c.check(k->Parent == &n, "tree_parent", "parent of a node");
        bool ccw = ringArea(toRing(k->Contour)) > 0; c.check(ccw != (depth % 2 == 1) || rev, "tree_orientation", "a polygon at depth %d of the tree is %s", depth, ccw ? "counter-clockwise" : "clockwise");
        if (depth) { Ring g = toRing(n.Contour); for (auto& p : toRing(k->Contour)) c.check(ringContains(g, p) || ringBoundaryDist(g, p) <= eps, "tree_nesting", "corner %s of a polygon is not in the polygon around it", ptStr(p).c_str()); }
        checkTree(c, *k, depth + 1, rev, eps);
    }
}
static std::multiset<std::vector<std::pair<cInt, cInt>>> canon(const Paths& v) { std::multiset<std::vector<std::pair<cInt, cInt>>> s; for (auto& p : v) { std::vector<std::pair<cInt, cInt>> q; for (auto& z : p) q.push_back({z.X, z.Y}); if (!q.empty()) std::rotate(q.begin(), std::min_element(q.begin(), q.end()), q.end()); s.insert(q); } return s; }

SUITE(clipper, 0) {
    Rng& r = c.rng; double R = std::pow(10.0, r.p(0.8) ? r.u(3.5, 8) : r.u(8, 12)), grid = r.p(0.3) ? std::max(1.0, std::floor(R / r.i(4, 12))) : 1; int style = r.p(0.7) ? 0 : 1;
    Rings S, C, all; bool plain = grid == 1 && !style; int nS = r.p(0.5) ? 1 : r.i(1, 4), nC = r.p(0.6) ? 1 : r.i(0, 4);
    for (int k = 0; k < nS + nC; k++) { bool der = false; Ring g = anyRing(r, R, grid, all, style, &der); if (g.size() < 3 || std::fabs(ringArea(g)) < 1) continue; (k < nS ? S : C).push_back(g); all.push_back(g); if (der || !ringSimple(g, 2)) plain = false; }
    if (S.empty() && C.empty()) { c.count("empty"); return; }
    c.desc = strf("R %g grid %g subject %s clip %s", R, grid, ringsStr(S).c_str(), ringsStr(C).c_str()); LD eps = 8;
    Clipper cl; int opts = r.p(0.7) ? 0 : r.i(0, 7); Clipper other(opts); Clipper& u = opts ? other : cl; bool rev = u.ReverseSolution(); strictlySimple = opts & 2; c.check(rev == (bool)(opts & 1) && u.StrictlySimple() == (bool)(opts & 2) && u.PreserveCollinear() == (bool)(opts & 4), "options", "options %d", opts);
    for (auto& g : S) c.check(u.AddPath(toPath(g), ptSubject, true) || !plain, "refused", "a subject polygon is refused"); { Paths v; for (auto& g : C) v.push_back(toPath(g)); if (!v.empty()) c.check(u.AddPaths(v, ptClip, true) || !plain, "refused", "the clip polygons are refused"); }
    if (grid == 1 && !style) { IntRect b = u.GetBounds(); P2 lo, hi; Ring flat; for (auto& g : all) flat.insert(flat.end(), g.begin(), g.end()); bbox(flat, lo, hi); c.check(b.left == (cInt)lo.x && b.right == (cInt)hi.x && b.top == (cInt)lo.y && b.bottom == (cInt)hi.y, "bounds", "bounds %lld %lld %lld %lld", b.left, b.top, b.right, b.bottom); }
    int rounds = r.i(1, 3); uint64_t h = ringsHash(7, all);
    for (int k = 0; k < rounds; k++) {
        ClipType op = (ClipType)r.i(0, 3); PolyFillType fs = (PolyFillType)r.i(0, 3), fc = (PolyFillType)r.i(0, 3); h = hashmix(h, op * 16 + fs * 4 + fc); std::string what = strf("%s (%s, %s, options %d)", OPS[op], FILLS[fs], FILLS[fc], opts);
        Paths sol; if (r.p(0.2)) sol.push_back(toPath(all[0])); if (!u.Execute(op, sol, fs, fc)) { c.check(!plain, "failed", "%s failed", what.c_str()); c.count("given_up"); continue; } checkResult(c, S, C, toRings(sol), op, fs, fc, rev, eps, R, what.c_str(), plain); c.count(OPS[op]); c.count("result_polygons", (long)sol.size());
        for (auto& p : sol) c.check(std::fabs(ringArea(toRing(p)) - Area(p)) <= 1e-6L * R * R && Orientation(p) == (Area(p) >= 0), "area", "Area or Orientation of a polygon of the result");
        if (fs == fc && r.p(0.3)) { Paths again; u.Execute(op, again, fs); if (plain) c.check(canon(again) == canon(sol), "again", "%s: asked again the result is another", what.c_str()); PolyTree t; u.Execute(op, t, fs); if (plain) c.check(treeCount(t) == (int)again.size() && (t.Total() == treeCount(t) || t.Total() + 1 == treeCount(t) /* the tree leaves one out when its first is a hole */), "again", "%s: asked as a tree with one rule the result is of %d polygons (%d), not %zu", what.c_str(), t.Total(), treeCount(t), again.size()); }
        if (r.p(0.3)) { PolyTree t; c.check(u.Execute(op, t, fs, fc) || !plain, "failed", "%s failed", what.c_str()); Paths v = treePaths(t), w; checkResult(c, S, C, toRings(v), op, fs, fc, rev, eps, R, (what + " as a tree").c_str(), plain); PolyTreeToPaths(t, w); c.check(canon(v) == canon(w), "tree_paths", "PolyTreeToPaths"); int n = 0; for (PolyNode* q = t.GetFirst(); q; q = q->GetNext()) n++; c.check(n == treeCount(t), "tree_walk", "%d nodes walked of %d", n, treeCount(t)); c.count("trees"); }
    }
    if (r.p(0.2)) { u.Clear(); Ring g = all.back(); u.AddPath(toPath(g), ptSubject, true); Paths sol; c.check(u.Execute(ctUnion, sol, pftNonZero, pftNonZero) || !plain, "failed", "union after Clear failed"); checkResult(c, {g}, {}, toRings(sol), ctUnion, pftNonZero, pftNonZero, rev, eps, R, "union after Clear", plain); c.count("cleared"); }
    c.mark(h); if (c.samples.size() < 2) c.samples.push_back(c.desc.substr(0, 400));
}
SUITE(intersection, 0) {      // the wrapper, on the library's own points
    Rng& r = c.rng; double size = std::pow(10.0, r.u(0, 4)); int scale = (int)std::pow(10.0, r.i(2, 8)); if (size * scale < 3000) scale = 100000;
    if (size * scale > 1e14) scale = 10000; RingOpts o; o.size = size; o.maxN = 24; Ring a = genRing(r, o), b; P2 lo, hi; bbox(a, lo, hi);
    RingOpts q; q.size = size * r.u(0.1, 1.5); q.translate = false; b = genRing(r, q); double an = r.p(0.3) ? 0 : r.u(0, 6.3), cx = r.u(lo.x, hi.x), cy = r.u(lo.y, hi.y), h2 = q.size / 2; for (auto& p : b) { double x = p.x - h2, y = p.y - h2; p = P2{cx + x * cos(an) - y * sin(an), cy + x * sin(an) + y * cos(an)}; }
    if (r.p(0.3)) a = reversed(a); if (r.p(0.3)) b = reversed(b); if (r.p(0.05)) b = a; double g = 1.0 / scale; if (ringClearance(a) < 20 * g || ringClearance(b) < 20 * g) { c.count("narrow"); return; }
    c.desc = strf("scale %d of ", scale) + ringStr(a) + " and " + ringStr(b); std::vector<Point> pa = toPts(a), pb = toPts(b); Paths sol = ClipperWrapper::polyIntersection(pa, pb, scale);
    Rings out; for (auto& p : sol) { Ring t; for (auto& z : p) t.push_back(P2{(double)z.X / scale, (double)z.Y / scale}); out.push_back(t); } LD eps = 8 * g + 1e-12L * (std::fabs(hi.x) + std::fabs(hi.y) + size); Rings in = {a, b}; bool any = false, ccwA = true; (void)ccwA;
    for (auto& t : out) for (auto& p : t) { c.check(boundaryDist(in, p) <= eps, "corner", "corner %s of the intersection is on neither outline", ptStr(p).c_str()); c.check((ringContains(a, p) || ringBoundaryDist(a, p) <= eps) && (ringContains(b, p) || ringBoundaryDist(b, p) <= eps), "corner", "corner %s is not in both", ptStr(p).c_str()); }
    for (int w = 0; w < 2; w++) for (auto& p : w ? b : a) if (ringContains(w ? a : b, p) && ringBoundaryDist(w ? a : b, p) > eps) { c.check(boundaryDist(out, p) <= eps, "corner_lost", "corner %s is in both, but not of the intersection", ptStr(p).c_str()); c.count("corners_kept"); }
    for (int k = 0; k < 40; k++) { P2 z = r.p(0.5) ? P2{r.u(lo.x, hi.x), r.u(lo.y, hi.y)} : P2{cx + r.u(-1, 1) * h2, cy + r.u(-1, 1) * h2}; if (boundaryDist(in, z) <= eps) continue; bool want = ringContains(a, z) && ringContains(b, z); any = any || want; c.count(want ? "samples_in" : "samples_out"); c.check(winding(out, z) == (want ? 1 : 0), "membership", "point %s is covered %d times by the intersection, should be %d", ptStr(z).c_str(), winding(out, z), want ? 1 : 0); }
    c.count(any ? "overlapping" : "apart"); c.count("parts", (long)out.size()); uint64_t h = 1; c.mark(ringsHash(h, in));
}
SUITE(offset, 0) {            // growing and shrinking
    Rng& r = c.rng; double R = std::pow(10.0, r.u(4, 8)); Ring g = anyRing(r, R, 1, {}, 0); if (g.size() < 3 || !ringSimple(g, 3)) { c.count("not_simple"); return; } if (ringArea(g) < 0 && r.p(0.7)) g = reversed(g);
    JoinType j = (JoinType)r.i(0, 2); double d = R * r.u(0.005, 0.3) * (r.p(0.5) ? 1 : -1), miter = r.u(2, 4), arc = r.p(0.5) ? 0.25 : R * 1e-4; c.desc = strf("by %g join %d miter %g arc %g of ", d, j, miter, arc) + ringStr(g);
    ClipperOffset co(miter, arc); co.AddPath(toPath(g), j, etClosedPolygon); Paths sol; co.Execute(sol, d); Rings out = toRings(sol); LD eps = 4 + 3 * arc + 1e-9L * R, ad = std::fabs(d); P2 lo, hi; bbox(g, lo, hi); Domain dom; dom.outer = g;
    for (int k = 0; k < 40; k++) { P2 z = P2{r.u(lo.x - 2.0 * (double)ad, hi.x + 2.0 * (double)ad), r.u(lo.y - 2.0 * (double)ad, hi.y + 2.0 * (double)ad)}; if (r.p(0.3)) { const P2& a = r.pick(g); double an = r.u(0, 6.3), q = (double)ad * r.u(0.3, 1.7); z = P2{a.x + q * cos(an), a.y + q * sin(an)}; }
        LD b = ringBoundaryDist(g, z); bool in = ringContains(g, z); int wn = winding(out, z); if (std::fabs(b) < eps) continue; c.count(in ? "samples_in" : "samples_out");
        if (d > 0) { if (in || b < ad - eps) { bool near = in || j == jtRound || j == jtMiter; /* square joins stay outside the circle as well */ (void)near; c.check(wn == 1, "grown", "point %s, %s the polygon and %.6Lg away from its boundary, is covered %d times by what is grown by %.6Lg", ptStr(z).c_str(), in ? "in" : "outside", b, wn, ad); } else if (b > ad * (j == jtRound ? 1 : std::max(miter, 1.5)) + eps) c.check(wn == 0, "grown", "point %s, %.6Lg away, is covered %d times by what is grown by %.6Lg", ptStr(z).c_str(), b, wn, ad); else if (j == jtRound && b > ad + eps) c.check(wn == 0, "grown", "round"); }
        else { if (!in || b < ad - eps) c.check(wn == 0, "shrunk", "point %s, %s the polygon and %.6Lg away from its boundary, is covered %d times by what is shrunk by %.6Lg", ptStr(z).c_str(), in ? "in" : "outside", b, wn, ad); else if (b > ad * (j == jtRound ? 1 : std::max(miter, 1.5)) + eps) c.check(wn == 1, "shrunk", "point %s, in the polygon and %.6Lg away from its boundary, is covered %d times by what is shrunk by %.6Lg", ptStr(z).c_str(), b, wn, ad); }
    }
    c.count(d > 0 ? "grown" : "shrunk"); c.mark(ringsHash(j, {g}));
}
SUITE(pathtools, 0) {         // area, orientation, point in polygon, reversing, simplifying, sums
    Rng& r = c.rng; double R = std::pow(10.0, r.u(1, 8)), grid = r.p(0.3) ? std::max(1.0, std::floor(R / r.i(4, 12))) : 1; Ring g = anyRing(r, R, grid, {}, 1); if (g.size() < 3 || std::fabs(ringArea(g)) < 1) { c.count("flat"); return; } Path p = toPath(g); c.desc = ringStr(g);
    c.check(std::fabs(Area(p) - ringArea(g)) <= 1e-9L * R * R, "area", "area %.15g, should be %.15Lg", Area(p), ringArea(g)); if (std::fabs(ringArea(g)) > 1e-9L * R * R) c.check(Orientation(p) == (ringArea(g) > 0), "orientation", "orientation"); { Path q = p; ReversePath(q); c.check(std::fabs(Area(q) + Area(p)) <= 1e-6 * R * R && q.front().X == p.back().X && q.size() == p.size(), "reverse", "ReversePath"); Paths v{p, q}, w = v; ReversePaths(w); c.check(canon(Paths{w[1]}) == canon(Paths{p}), "reverse", "ReversePaths"); }
    for (int k = 0; k < 25; k++) { IntPoint z((cInt)std::round(r.u(-1.2, 1.2) * R), (cInt)std::round(r.u(-1.2, 1.2) * R)); int on = 0; if (r.p(0.3)) { z = r.pick(p); on = 1; } else if (r.p(0.3)) z = IntPoint(r.pick(p).X, z.Y); else if (r.p(0.3)) z = IntPoint(z.X, r.pick(p).Y);
        P2 q{(double)z.X, (double)z.Y}; for (size_t i = 0; i < p.size(); i++) { const IntPoint &a = p[i], &b = p[(i + 1) % p.size()]; __int128 o = (__int128)(b.X - a.X) * (z.Y - a.Y) - (__int128)(b.Y - a.Y) * (z.X - a.X); if (o == 0 && std::min(a.X, b.X) <= z.X && z.X <= std::max(a.X, b.X) && std::min(a.Y, b.Y) <= z.Y && z.Y <= std::max(a.Y, b.Y)) on = 1; }
        // even-odd, exactly
        bool in = false; for (size_t i = 0; i < p.size(); i++) { const IntPoint &a = p[i], &b = p[(i + 1) % p.size()]; if ((a.Y > z.Y) == (b.Y > z.Y)) continue; __int128 o = (__int128)(b.X - a.X) * (z.Y - a.Y) - (__int128)(b.Y - a.Y) * (z.X - a.X); if ((o > 0) == (b.Y > a.Y)) in = !in; }
        int want = on ? -1 : in ? 1 : 0, got = PointInPolygon(z, p); c.check(got == want, "point_in_polygon", "PointInPolygon(%s) is %d, should be %d", ptStr(q).c_str(), got, want); c.count(on ? "points_on" : in ? "points_in" : "points_out"); }
    if (R > 1000) { Paths sol; PolyFillType f = (PolyFillType)r.i(0, 3); SimplifyPolygon(p, sol, f); checkResult(c, {g}, {}, toRings(sol), ctUnion, f, f, false, 8, R, "SimplifyPolygon", false); c.count("simplified");
        Path cl; CleanPolygon(p, cl); for (auto& z : toRing(cl)) c.check(ringBoundaryDist(g, z) < 1e-9, "clean", "CleanPolygon made a new corner"); c.count("cleaned"); }
    c.mark(ringsHash(3, {g}));
}
// ---- open lines
typedef std::vector<Ring> Lines;
static LD lineDist(const Ring& l, const P2& z, bool closed = false) { LD d = dist(l[0], z); for (size_t k = 0; k + 1 < l.size(); k++) d = std::min(d, distSeg(z, l[k], l[k + 1])); if (closed) d = std::min(d, distSeg(z, l.back(), l[0])); return d; }
static LD lineDist(const Lines& v, const P2& z) { LD d = 1e30L; for (auto& l : v) if (!l.empty()) d = std::min(d, lineDist(l, z)); return d; }
static LD lineLength(const Ring& l) { LD s = 0; for (size_t k = 0; k + 1 < l.size(); k++) s += dist(l[k], l[k + 1]); return s; }
static Ring anyLine(Rng& r, double R, double grid, int minN = 2, bool level = true) {
    Ring g; int n = r.i(minN, 7); P2 at{r.u(-1, 1) * R, r.u(-1, 1) * R};
    for (int k = 0; k < n; k++) { g.push_back(at); double an = r.p(0.35) ? (level ? r.i(0, 3) : 1 + 2 * r.i(0, 1)) * M_PI / 2 : r.u(0, 2 * M_PI), l = R * r.u(0.1, 1.2); at.x += l * std::cos(an); at.y += l * std::sin(an); }
    for (auto& p : g) { p.x = std::round(p.x / grid) * grid; p.y = std::round(p.y / grid) * grid; }
    Ring o; for (auto& p : g) if (o.empty() || dist(o.back(), p) > 0) o.push_back(p); return o;
}
SUITE(lines, 0) {            // open lines clipped by polygons
    Rng& r = c.rng; double R = std::pow(10.0, r.u(3.5, 8)), grid = 1; Lines L; Rings S, C, all;
    int nL = r.p(0.5) ? 1 : r.i(2, 4), nC = r.p(0.6) ? 1 : r.i(1, 3), nS = r.p(0.8) ? 0 : 1;
    for (int k = 0; k < nC + nS; k++) { Ring g = anyRing(r, R, grid, {}, 0); if (g.size() < 3 || !ringSimple(g, 10)) { c.count("not_simple"); return; } (k < nC ? C : S).push_back(g); all.push_back(g); }
    for (int k = 0; k < nL; k++) { Ring l = anyLine(r, R, grid, 2, false); if (l.size() >= 2) L.push_back(l); } if (L.empty()) return;
    // lines that meet corners, run along sides, or meet themselves within rounding are not judged
    for (auto& l : L) for (auto& g : all) { for (auto& p : l) if (ringBoundaryDist(g, p) < 20) { c.count("touching"); return; } for (auto& q : g) if (lineDist(l, q) < 20) { c.count("touching"); return; } }
    { Rings segs; for (auto& l : L) for (size_t k = 0; k + 1 < l.size(); k++) segs.push_back({l[k], l[k + 1]}); for (size_t i = 0; i < segs.size(); i++) for (size_t j = 0; j < i; j++) { const P2 &a = segs[i][0], &b = segs[i][1], &p = segs[j][0], &q = segs[j][1]; if (std::fabs(orient(a, b, p)) / dist(a, b) < 20 && std::fabs(orient(a, b, q)) / dist(a, b) < 20 && (distSeg(p, a, b) < 20) + (distSeg(q, a, b) < 20) + (distSeg(a, p, q) < 20) + (distSeg(b, p, q) < 20) >= 2 && !(j + 1 == i && dist(q, a) == 0 && ((b.x - a.x) * (q.x - p.x) + (b.y - a.y) * (q.y - p.y)) > 0)) { c.count("doubled"); return; } } }
    ClipType op = (ClipType)r.i(0, 3); PolyFillType fs = (PolyFillType)r.i(0, 1), fc = (PolyFillType)r.i(0, 1); /* the other rules are for closed paths */ c.desc = strf("%s (%s, %s) of lines %s polygons %s by %s", OPS[op], FILLS[fs], FILLS[fc], ringsStr(L).c_str(), ringsStr(S).c_str(), ringsStr(C).c_str());
    Clipper u; bool preserve = r.p(0.2); u.PreserveCollinear(preserve); bool first = r.p(0.5);
    auto addL = [&]() { for (auto& l : L) c.check(u.AddPath(toPath(l), ptSubject, false), "line_refused", "a line is refused"); };
    if (first) addL(); for (auto& g : S) u.AddPath(toPath(g), ptSubject, true); for (auto& g : C) u.AddPath(toPath(g), ptClip, true); if (!first) addL();
    if (r.p(0.1)) { Paths no; bool threw = false; try { u.Execute(op, no, fs, fc); } catch (clipperException&) { threw = true; } c.check(threw, "lines_need_tree", "clipping lines into a list of paths is not refused"); threw = false; try { Clipper v; v.AddPath(toPath(L[0]), ptClip, false); } catch (clipperException&) { threw = true; } c.check(threw, "open_clip", "an open line is accepted to clip with"); }
    PolyTree t; c.check(u.Execute(op, t, fs, fc), "failed", "%s failed", OPS[op]);
    Paths open, closed, any; OpenPathsFromPolyTree(t, open); ClosedPathsFromPolyTree(t, closed); PolyTreeToPaths(t, any); c.check(any.size() == open.size() + closed.size(), "tree_paths", "open and closed paths of the tree");
    for (PolyNode* q = t.GetFirst(); q; q = q->GetNext()) if (q->IsOpen()) c.check(q->Parent == &t && q->ChildCount() == 0, "open_node", "an open line is not at the top of the tree");
    Lines out = toRings(open); LD eps = 6;
    // kept: in the region of the operation, as if the line had no other side
    auto keep = [&](const P2& z) { bool a = filled(winding(S, z), fs), b = filled(winding(C, z), fc); return op == ctIntersection ? b : op == ctDifference ? !b : op == ctUnion ? !b && !a : !b; };
    LD total = 0, got = 0, slack = 0; for (auto& l : out) { got += lineLength(l); c.check(l.size() >= 2, "line_ends", "a line of %zu points", l.size()); for (auto& p : l) c.check(lineDist(L, p) <= eps, "line_corner", "point %s of the result is not on a line", ptStr(p).c_str()); }
    for (auto& l : L) for (size_t k = 0; k + 1 < l.size(); k++) {
        std::vector<LD> cut = {0, 1}; P2 a = l[k], b = l[k + 1];
        for (auto& g : all) for (size_t i = 0; i < g.size(); i++) { P2 p = g[i], q = g[(i + 1) % g.size()]; LD o1 = orient(a, b, p), o2 = orient(a, b, q), o3 = orient(p, q, a), o4 = orient(p, q, b); if ((o1 > 0) == (o2 > 0) || (o3 > 0) == (o4 > 0)) continue; cut.push_back(o3 / (o3 - o4)); LD sine = std::fabs(((LD)b.x - a.x) * (q.y - p.y) - ((LD)b.y - a.y) * (q.x - p.x)) / (dist(a, b) * dist(p, q)); slack += 6 / std::max(sine, 1e-6L); }
        std::sort(cut.begin(), cut.end());
        for (size_t i = 0; i + 1 < cut.size(); i++) { LD m = (cut[i] + cut[i + 1]) / 2, len = (cut[i + 1] - cut[i]) * dist(a, b); P2 z{(double)(a.x + m * (b.x - a.x)), (double)(a.y + m * (b.y - a.y))}; if (len < 40) { slack += len; continue; } bool want = keep(z); if (want) total += len; slack += 4;
            for (int s = 0; s < 3; s++) { LD u = cut[i] + (cut[i + 1] - cut[i]) * r.u(0.02, 0.98); P2 y{(double)(a.x + u * (b.x - a.x)), (double)(a.y + u * (b.y - a.y))}; if (boundaryDist(all, y) < 12) continue; bool far = true; for (auto& o : L) for (size_t j = 0; j + 1 < o.size(); j++) if ((&o != &l || j != k) && distSeg(y, o[j], o[j + 1]) < 20) far = false; if (!far) continue;
                LD d = lineDist(out, y); c.count(want ? "line_samples_in" : "line_samples_out"); c.check(want ? d <= eps : d > eps, "line_membership", "point %s of a line is %s the result (%.3Lg away)", ptStr(y).c_str(), want ? "missing from" : "in", d); } }
    }
    c.check(std::fabs(got - total) <= slack + 1e-9L * R, "line_length", "the lines of the result are %.15Lg long, should be %.15Lg (within %.3Lg)", got, total, slack); c.count("lines_kept", (long)out.size());
    if (!S.empty() && !closed.empty() && op == ctUnion) checkResult(c, S, C, toRings(closed), op, fs, fc, false, 8, R, "union beside lines", false);
    c.mark(ringsHash(ringsHash(op * 16 + fs * 4 + fc, L), all));
}
SUITE(lineoffset, 0) {       // growing lines and sets of polygons
    Rng& r = c.rng; double R = std::pow(10.0, r.u(4, 8)); JoinType j = (JoinType)r.i(0, 2); EndType e = (EndType)r.i(0, 4); double d = R * r.u(0.005, 0.3), miter = r.u(2, 4), arc = r.p(0.5) ? 0.25 : R * 1e-4; Lines L;
    bool poly = e == etClosedPolygon, ring = poly || e == etClosedLine; if (poly && r.p(0.5)) d = -d;
    if (poly) {       // an outline with holes, listed in any order
        Domain dom; RingOpts o; o.size = R; o.maxN = 16; o.translate = false; dom.outer = genRing(r, o); int n = r.i(0, 2); for (int k = 0; k < n; k++) { Ring h = genHoleInside(r, dom, 0.03 * R, false); if (h.size() >= 3) dom.holes.push_back(ringArea(h) > 0 ? reversed(h) : h); } L.push_back(dom.outer); L.insert(L.end(), dom.holes.begin(), dom.holes.end()); for (auto& l : L) snap(l, 1); for (auto& l : L) if (l.size() < 3 || !ringSimple(l, 3)) return; bool turn = r.p(0.3); if (turn) for (auto& l : L) l = reversed(l); r.shuffle(L);
    } else { int n = r.p(0.6) ? 1 : r.i(2, 3); for (int k = 0; k < n; k++) { Ring l = anyLine(r, R, 1, r.p(0.1) ? 1 : ring ? 3 : 2); if (!l.empty()) L.push_back(l); } }
    // a line that turns back on itself has no defined side there
    for (auto& l : L) for (size_t k = 0; k + 2 < l.size() + (ring ? 2 : 0); k++) { P2 a = l[k % l.size()], b = l[(k + 1) % l.size()], q = l[(k + 2) % l.size()]; LD co = (((LD)b.x - a.x) * (q.x - b.x) + ((LD)b.y - a.y) * (q.y - b.y)) / (dist(a, b) * dist(b, q)); if (!(co > -0.9L)) { c.count("turning_back"); return; } if (dist(a, b) < 50) return; }
    c.desc = strf("by %g join %d end %d miter %g arc %g of ", d, j, e, miter, arc) + ringsStr(L); ClipperOffset co; co.MiterLimit = miter; co.ArcTolerance = arc; if (r.p(0.3)) { co.AddPath(Path{IntPoint(0, 0), IntPoint(0, 9), IntPoint(9, 9)}, j, etClosedPolygon); co.Clear(); }
    Paths in; for (auto& l : L) in.push_back(toPath(l)); if (r.p(0.5)) co.AddPaths(in, j, e); else for (auto& p : in) co.AddPath(p, j, e);
    bool tree = r.p(0.4); Rings out; if (tree) { PolyTree t; co.Execute(t, d); out = toRings(treePaths(t)); checkTree(c, t, 0, false, 8); c.count("trees"); } else { Paths sol; co.Execute(sol, d); out = toRings(sol); }
    LD eps = 4 + 3 * arc + 1e-9L * R, ad = std::fabs((LD)d), reach = j == jtRound ? 1 : std::max(miter, 1.5); if (e == etOpenSquare) reach = std::max(reach, 1.5L); P2 lo, hi; Ring flat; for (auto& l : L) flat.insert(flat.end(), l.begin(), l.end()); bbox(flat, lo, hi);
    for (int k = 0; k < 40; k++) {
        P2 z{r.u(lo.x - 2.0 * (double)ad, hi.x + 2.0 * (double)ad), r.u(lo.y - 2.0 * (double)ad, hi.y + 2.0 * (double)ad)}; if (r.p(0.5)) { const P2& a = r.pick(flat); double an = r.u(0, 6.3), q = (double)ad * r.u(0.2, 1.7); z = P2{a.x + q * cos(an), a.y + q * sin(an)}; }
        int wn = winding(out, z); if (boundaryDist(out, z) < eps) continue;
        if (poly) { bool inside = winding(L, z) != 0; LD b = boundaryDist(L, z); if (b < eps) continue; bool grown = d > 0, sure = grown ? inside || b < ad - eps : inside && b > ad * reach + eps, never = grown ? !inside && b > ad * reach + eps : !inside || b < ad - eps; if (sure) { c.count("samples_in"); c.check(wn == 1, "offset_in", "point %s, %s and %.6Lg away from the outline, is covered %d times", ptStr(z).c_str(), inside ? "inside" : "outside", b, wn); } if (never) { c.count("samples_out"); c.check(wn == 0, "offset_out", "point %s, %s and %.6Lg away from the outline, is covered %d times", ptStr(z).c_str(), inside ? "inside" : "outside", b, wn); } continue; }
        bool sure = false; LD b = 1e30L;
        for (auto& l : L) { LD q = lineDist(l, z, ring && l.size() > 1); b = std::min(b, q); if (q < ad - eps) { if (l.size() == 1 || e == etClosedLine || e == etOpenRound || e == etOpenSquare) sure = true; else { // beyond a butt end nothing is covered
                    auto past = [&](const P2& from, const P2& to) { return ((LD)to.x - from.x) * (z.x - to.x) + ((LD)to.y - from.y) * (z.y - to.y) > -eps * dist(from, to); }; bool end = dist(z, l[0]) < ad + eps && past(l[1], l[0]), end2 = dist(z, l.back()) < ad + eps && past(l[l.size() - 2], l.back()); if (!end && !end2) sure = true; } } }
        LD lim = ad * reach + eps; for (auto& l : L) if (l.size() == 1 && j != jtRound) lim = std::max(lim, 1.5L * ad + eps);
        if (sure) { c.count("samples_in"); c.check(wn == 1, "line_grown", "point %s, %.6Lg away from the lines, is covered %d times", ptStr(z).c_str(), b, wn); } else if (b > lim) { c.count("samples_out"); c.check(wn == 0, "line_grown", "point %s, %.6Lg away from the lines, is covered %d times", ptStr(z).c_str(), b, wn); }
        // a butt end stops where the line stops
        if (e == etOpenButt && L.size() == 1 && L[0].size() == 2) { const P2 &p = L[0][0], &q = L[0][1]; LD len = dist(p, q), s = (((LD)q.x - p.x) * (z.x - p.x) + ((LD)q.y - p.y) * (z.y - p.y)) / len; if (s < -eps || s > len + eps) { c.count("beyond_butt"); c.check(wn == 0, "butt", "point %s beyond a butt end is covered", ptStr(z).c_str()); } }
    }
    c.count(poly ? d > 0 ? "grown_sets" : "shrunk_sets" : strf("ends_%d", e)); c.mark(ringsHash(j * 8 + e, L));
}
SUITE(minkowski, 0) {        // sums and differences of outlines
    Rng& r = c.rng; double R = std::pow(10.0, r.u(4, 7)); Ring pat = anyRing(r, R * r.u(0.05, 0.5), 1, {}, 0), path = r.p(0.5) ? anyLine(r, R, 1, 3) : anyRing(r, R, 1, {}, 0); if (pat.size() < 3 || path.size() < 2) return; for (size_t k = 0; k < pat.size(); k++) if (dist(pat[k], pat[(k + 1) % pat.size()]) < 20) return; for (size_t k = 0; k < path.size(); k++) if (dist(path[k], path[(k + 1) % path.size()]) < 20) return;
    int how = r.i(0, 2); bool closed = how == 2 || r.p(0.5); if (closed && path.size() < 3) return; c.desc = strf("how %d closed %d of ", how, closed) + ringStr(pat) + " and " + ringStr(path);
    Paths sol; if (how == 2) MinkowskiDiff(toPath(pat), toPath(path), sol); else if (how == 1) MinkowskiSum(toPath(pat), Paths{toPath(path)}, sol, closed); else MinkowskiSum(toPath(pat), toPath(path), sol, closed); Rings out = toRings(sol);
    // the sum of the outlines: every side of one carried along every side of the other
    Rings quads; size_t np = pat.size(), nq = path.size(); double sg = how == 2 ? -1 : 1; for (size_t a = 0; a < np; a++) for (size_t b = 0; b + (closed ? 0 : 1) < nq; b++) { P2 u = pat[a], v = pat[(a + 1) % np], s = path[b], t = path[(b + 1) % nq]; quads.push_back(Ring{P2{s.x + sg * u.x, s.y + sg * u.y}, P2{t.x + sg * u.x, t.y + sg * u.y}, P2{t.x + sg * v.x, t.y + sg * v.y}, P2{s.x + sg * v.x, s.y + sg * v.y}}); }
    Ring fill; if (how == 1 && closed) for (auto& p : path) fill.push_back(P2{p.x + pat[0].x, p.y + pat[0].y});
    P2 lo, hi; Ring flat; for (auto& q : quads) flat.insert(flat.end(), q.begin(), q.end()); bbox(flat, lo, hi); LD eps = 8;
    for (int k = 0; k < 40; k++) { P2 z{r.u(lo.x, hi.x), r.u(lo.y, hi.y)}; if (r.p(0.3)) { const P2& a = r.pick(flat); double an = r.u(0, 6.3), q = R * std::pow(10.0, r.u(-3, -0.5)); z = P2{a.x + q * cos(an), a.y + q * sin(an)}; }
        bool in = false, near = false; for (auto& q : quads) { LD b = ringBoundaryDist(q, z); if (b < eps) near = true; if (ringWinding(q, z) != 0) in = true; } if (fill.size() >= 3) { if (ringBoundaryDist(fill, z) < eps) near = true; if (ringWinding(fill, z) != 0) in = true; } if (near) continue; int wn = winding(out, z); c.count(in ? "samples_in" : "samples_out"); c.check((wn != 0) == in && wn >= 0 && wn <= 1, "minkowski", "point %s is covered %d times, should be %d", ptStr(z).c_str(), wn, in); }
    c.count(how == 2 ? "differences" : closed ? "closed_sums" : "open_sums"); c.mark(ringsHash(how, {pat, path}));
}

SUITE(cliptools, 0) {        // the rest of the interface: sets simplified and cleaned, bounds, limits of the coordinates, offsets by nothing, printing
    Rng& r = c.rng; double R = std::pow(10.0, r.u(3.5, 8)), grid = r.p(0.3) ? std::max(1.0, std::floor(R / r.i(4, 12))) : 1; Rings S; int n = r.i(1, 4); for (int k = 0; k < n; k++) { Ring g = anyRing(r, R, grid, S, 1); if (g.size() >= 3 && std::fabs(ringArea(g)) >= 1) S.push_back(g); }
    if (S.empty()) { c.count("flat"); return; } c.desc = strf("R %g grid %g of %s", R, grid, ringsStr(S).c_str()); Paths in; for (auto& g : S) in.push_back(toPath(g)); int what = r.i(0, 6);
    if (what == 0) { // the sets of polygons, simplified
        PolyFillType f = (PolyFillType)r.i(0, 3); Paths sol, same = in; SimplifyPolygons(in, sol, f); SimplifyPolygons(same, f); c.check(canon(same) == canon(sol), "in_place", "SimplifyPolygons in place gives another result"); checkResult(c, S, {}, toRings(sol), ctUnion, f, f, false, 8, R, "SimplifyPolygons", false);
        Paths even, odd; SimplifyPolygons(in, even); SimplifyPolygons(in, odd, pftEvenOdd); c.check(canon(even) == canon(odd), "default_fill", "SimplifyPolygons without a fill rule is not even-odd");
        Paths one, two = {in[0]}; SimplifyPolygon(in[0], one, f); SimplifyPolygons(two, f); c.check(canon(one) == canon(two), "one_or_many", "SimplifyPolygon and SimplifyPolygons differ on one polygon"); c.count("simplified_sets"); c.count("result_polygons", (long)sol.size());
    } else if (what == 1) { // cleaned: corners that are close together or hardly turn go, the rest stays in order
        double d = r.p(0.3) ? 1.415 : r.p(0.5) ? r.u(0, 20) : R * std::pow(10.0, r.u(-4, -0.7)); for (auto& p : in) { Path q; for (size_t k = 0; k < p.size(); k++) { q.push_back(p[k]); const IntPoint &a = p[k], &b = p[(k + 1) % p.size()]; if (r.p(0.2)) { double t = r.u(), o = r.u(-1.5, 1.5) * d; q.push_back(IntPoint(a.X + (cInt)(t * (b.X - a.X) + o), a.Y + (cInt)(t * (b.Y - a.Y)))); } if (r.p(0.1)) q.push_back(q.back()); } p = q; }
        Paths out, same = in, one(in.size()), dflt, dflt2; CleanPolygons(in, out, d); CleanPolygons(same, d); c.check(out == same, "in_place", "CleanPolygons in place gives another result"); for (size_t k = 0; k < in.size(); k++) { CleanPolygon(in[k], one[k], d); Path q = in[k]; CleanPolygon(q, d); c.check(q == one[k], "in_place", "CleanPolygon in place gives another result"); } c.check(one == out, "one_or_many", "CleanPolygon and CleanPolygons differ"); CleanPolygons(in, dflt); CleanPolygons(in, dflt2, 1.415); c.check(dflt == dflt2, "default_distance", "the default distance is not 1.415");
        for (size_t k = 0; k < in.size(); k++) { const Path &a = in[k], &b = out[k]; c.check(b.empty() || b.size() >= 3, "cleaned_size", "a cleaned polygon of %zu corners", b.size()); c.count(b.empty() ? "cleaned_away" : b.size() == a.size() ? "cleaned_nothing" : "cleaned_some"); c.count("corners_cleaned", (long)(a.size() - b.size()));
            // a subsequence, started anywhere
            if (!b.empty()) { bool sub = false; for (size_t s = 0; s < a.size() && !sub; s++) { if (a[s] != b[0]) continue; size_t j = 0; for (size_t i = 0; i < a.size() && j < b.size(); i++) if (a[(s + i) % a.size()] == b[j]) j++; sub = j == b.size(); } c.check(sub, "cleaned_order", "the corners of a cleaned polygon are not corners of the polygon in their order"); }
            // nothing to clean: nothing cleaned
            LD least = 1e30L; Ring g = toRing(a); size_t m = g.size(); for (size_t i = 0; i < m; i++) { const P2 &p = g[(i + m - 1) % m], &q = g[i], &t = g[(i + 1) % m]; least = std::min({least, dist(p, q), dist(p, t)}); LD area = std::fabs(orient(p, q, t)), side = std::max({dist(p, q), dist(q, t), dist(p, t)}); least = std::min(least, side > 0 ? area / side : 0); } if (m > 3 && least > d * (1 + 1e-9L) + 1e-6L) { c.check(b.size() == a.size(), "cleaned_needlessly", "%zu corners were removed from a polygon with nothing to clean", a.size() - b.size()); c.count("clean_already"); }
            // what is left is clean but perhaps where the walk around it ended
            if (b.size() > 3) { int dirty = 0; Ring h = toRing(b); size_t q = h.size(); for (size_t i = 0; i < q; i++) { if (dist(h[i], h[(i + 1) % q]) <= d * (1 - 1e-9L) - 1e-6L) dirty++; } c.check(dirty <= 1, "left_dirty", "%d neighbours of a cleaned polygon are within %g of each other", dirty, d); } }
        c.count("cleaned_sets");
    } else if (what == 2) { // bounds
        Clipper u; IntRect b = u.GetBounds(); c.check(b.left == 0 && b.top == 0 && b.right == 0 && b.bottom == 0, "bounds_of_nothing", "the bounds of nothing are %lld %lld %lld %lld", b.left, b.top, b.right, b.bottom); Paths sol(1); u.Execute(ctUnion, sol, pftNonZero); c.check(sol.empty(), "nothing", "the union of nothing has %zu polygons", sol.size()); PolyTree t; u.Execute(ctUnion, t, pftNonZero); c.check(t.Total() == 0 && !t.GetFirst(), "nothing", "the union of nothing as a tree");
        // what has no area is refused, unless it is a line
        IntPoint a = in[0][0], e = in[0][1]; c.check(!u.AddPath(Path{}, ptSubject, true) && !u.AddPath(Path{a}, ptSubject, true) && !u.AddPath(Path{a, e}, ptSubject, true) && !u.AddPath(Path{a, e, a}, ptSubject, true) && !u.AddPath(Path{a, a, a, a}, ptSubject, true) && !u.AddPath(Path{a}, ptSubject, false), "degenerate", "a polygon without area is accepted"); c.check(!u.AddPaths(Paths{Path{}, Path{a, e}}, ptClip, true) && u.AddPaths(Paths{Path{a, e}, in[0]}, ptClip, true) == u.AddPath(in[0], ptClip, true), "degenerate", "AddPaths reports something else than whether a polygon was accepted"); c.count("bounds_of_nothing");
    } else if (what == 3) { // the largest coordinates
        cInt big = hiRange; for (int k = 0; k < 4; k++) { cInt x = r.p(0.5) ? big + 1 : -big - 1, y = (cInt)r.u(-1e9, 1e9); if (r.p(0.5)) std::swap(x, y); Path p = in[0]; p[r.i(0, (int)p.size() - 1)] = IntPoint(x, y); Clipper u; bool threw = false; try { u.AddPath(p, ptSubject, true); } catch (clipperException& e) { threw = std::string(e.what()).size() > 0; } c.check(threw, "range", "a coordinate of %lld is accepted", x); c.count("out_of_range"); }
        int at = r.i(31, 61); double L = std::ldexp(1.0, at), q = std::ldexp(1.0, std::max(0, at - 40)); Rings A, B, all; double f = L / R * 0.2; for (int k = 0; k < 2; k++) { Ring g = anyRing(r, R, 1, {}, 0); for (auto& p : g) { p.x = std::round(p.x * f / q) * q; p.y = std::round(p.y * f / q) * q; } if (g.size() < 3 || !ringSimple(g, (LD)L * 1e-6L)) { c.count("not_simple"); return; } (k ? B : A).push_back(g); all.push_back(g); }
        for (int i = 0; i < 2; i++) for (auto& p : all[i]) if (ringBoundaryDist(all[1 - i], p) < (LD)L * 1e-6L) { c.count("touching"); return; }
        Clipper u; for (auto& g : A) u.AddPath(toPath(g), ptSubject, true); for (auto& g : B) u.AddPath(toPath(g), ptClip, true); ClipType op = (ClipType)r.i(0, 3); Paths sol; c.check(u.Execute(op, sol, pftNonZero, pftNonZero), "failed", "%s of large polygons failed", OPS[op]); strictlySimple = false; checkResult(c, A, B, toRings(sol), op, pftNonZero, pftNonZero, false, 8 + (LD)L * 1e-11L, L * 0.3, "of large polygons", false); c.count("large_coordinates"); c.mark(ringsHash(op, all)); return;
    } else if (what == 4) { // offset by (almost) nothing
        ClipperOffset co; Domain dom; RingOpts o; o.size = R; o.translate = false; dom.outer = genRing(r, o); snap(dom.outer, 1); if (!ringSimple(dom.outer, 3)) return; if (ringArea(dom.outer) < 0) dom.outer = reversed(dom.outer); Paths want{toPath(dom.outer)}; bool turn = r.p(0.5); Path p = want[0]; if (turn) ReversePath(p); co.AddPath(p, (JoinType)r.i(0, 2), etClosedPolygon); if (r.p(0.5)) { Ring l = anyLine(r, R, 1, 2); if (l.size() > 1) co.AddPath(toPath(l), (JoinType)r.i(0, 2), (EndType)r.i(2, 4)); }
        double d = r.p(0.5) ? 0 : r.u(-0.9e-20, 0.9e-20); Paths sol; co.Execute(sol, d); c.check(sol.size() == 1, "offset_nothing", "%zu polygons of an offset by nothing", sol.size()); P2 lo, hi; bbox(dom.outer, lo, hi); for (int k = 0; k < 20 && sol.size() == 1; k++) { P2 z{r.u(lo.x, hi.x), r.u(lo.y, hi.y)}; if (ringBoundaryDist(dom.outer, z) < 8) continue; int w = ringWinding(toRing(sol[0]), z), v = ringContains(dom.outer, z); c.check(w == v, "offset_nothing", "an offset by nothing covers %s %d times", ptStr(z).c_str(), w); }
        PolyTree t; co.Execute(t, d); c.check(canon(treePaths(t)) == canon(sol), "offset_nothing", "the tree of an offset by nothing differs"); co.Clear(); Paths none(1); co.Execute(none, R * 0.01); c.check(none.empty(), "offset_cleared", "after Clear an offset has %zu polygons", none.size()); co.AddPath(Path{}, jtRound, etClosedPolygon); co.Execute(none, R * 0.01); c.check(none.empty(), "offset_empty", "an empty path grows to %zu polygons", none.size()); c.count("offset_nothing");
    } else if (what == 5) { // how round a round corner is: within the tolerance asked for
        double d = std::pow(10.0, r.u(1, 6)), arc = r.p(0.3) ? r.u(-1, 0) : r.p(0.3) ? 0.25 : d * std::pow(10.0, r.u(-4, 0)); LD tol = arc <= 0 ? 0.25 : std::min(arc, d * 0.25); tol = std::max(tol, (LD)d * (1 - std::cos(std::min((LD)3.14159265358979L / std::min(3.14159265358979L / std::acos(1 - std::min(tol / (LD)d, 1.0L)), (LD)d * 3.14159265358979L), (LD)1.6))));
        IntPoint z((cInt)r.u(-1e6, 1e6), (cInt)r.u(-1e6, 1e6)), y((cInt)(z.X + d * r.u(2, 20)), (cInt)(z.Y + d * r.u(-3, 3))); bool line = r.p(0.5); ClipperOffset co(r.p(0.5) ? 2.0 : r.u(0, 2), arc); if (line) co.AddPath(Path{z, y}, jtRound, etOpenRound); else co.AddPath(Path{z}, jtRound, etOpenRound); Paths sol; co.Execute(sol, d); c.check(sol.size() == 1, "round", "a line grows to %zu polygons", sol.size()); if (sol.size() != 1) return;
        Ring g = toRing(sol[0]); P2 a{(double)z.X, (double)z.Y}, b{(double)y.X, (double)y.Y}; LD far = 0, near = 1e30L; for (size_t k = 0; k < g.size(); k++) { const P2 &p = g[k], &q = g[(k + 1) % g.size()]; P2 m{(p.x + q.x) / 2, (p.y + q.y) / 2}; for (auto& w : {p, m}) { LD e = line ? distSeg(w, a, b) : dist(w, a); far = std::max(far, e); near = std::min(near, e); } }
        c.check(far <= d + 1.5L && near >= d - tol * (line ? 2.3L : 4.05L) /* the last corner of a circle takes what is left of up to two steps */ - 2.5L, "round", "a %s grown by %g is %.6Lg to %.6Lg wide, tolerance %.6Lg", line ? "line" : "point", d, near, far, tol); c.check(g.size() >= 3 && ringArea(g) > 0, "round", "turned"); c.count("round_ends"); c.count("round_corners", (long)g.size());
        // no more corners than the tolerance needs
        LD most = 2 * 3.1416L / std::acos(1 - std::min(tol / (LD)d, 0.999999L)) * 1.1L + 16; if (arc > 0 && arc < d * 0.25 ) c.check((LD)g.size() <= most, "round_count", "%zu corners where %.6Lg are enough", g.size(), most);
        uint64_t h = 5; for (double v : {d, arc, (double)z.X, (double)y.Y}) h = hashd(h, v); c.mark(h); return;
    } else { // printing
        std::ostringstream o; o << in; std::string want; for (auto& p : in) { for (size_t k = 0; k < p.size(); k++) want += (k ? ", (" : "(") + std::to_string(p[k].X) + "," + std::to_string(p[k].Y) + ")"; want += "\n"; } want += "\n"; c.check(o.str() == want, "printed", "printed as %s", o.str().substr(0, 200).c_str()); std::ostringstream e; e << Path{} << in[0][0]; c.check(e.str() == "(" + std::to_string(in[0][0].X) + "," + std::to_string(in[0][0].Y) + ")", "printed", "printed as %s", e.str().c_str());
        Path b; b << IntPoint(1, 2) << IntPoint(3, 4); Paths v; v << b << b; c.check(v.size() == 2 && v[1] == b && b.size() == 2 && b[1].X == 3 && b[1].Y == 4, "appended", "operator<<"); c.count("printed");
    }
    c.mark(ringsHash(what, S));
}

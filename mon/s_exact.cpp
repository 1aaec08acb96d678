// Triangle with exact arithmetic on positions that rounding gets wrong: C21. Every sign is decided with integers of any length.
#include "dscene.h"
#include <boost/multiprecision/cpp_int.hpp>

namespace {
typedef boost::multiprecision::cpp_int Z;
struct Pt { double x, y; bool operator<(const Pt& o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const Pt& o) const { return x == o.x && y == o.y; } };
const int LOW = -400;   // everything is a multiple of 2^LOW
Z whole(double v) { int e; double m = std::frexp(v, &e); Z z = (long long)std::ldexp(m, 53); e -= 53 + LOW; if (e < 0 && z != 0) { while (e < 0) { z /= 2; e++; } return z; } return z << std::max(e, 0); }
struct ZP { Z x, y; };
int sgn(const Z& z) { return z.sign(); }
int ccwSign(const ZP& a, const ZP& b, const ZP& p) { return sgn((b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x)); }
int circleSign(const ZP& a, const ZP& b, const ZP& p, const ZP& d) {
    Z ax = a.x - d.x, ay = a.y - d.y, bx = b.x - d.x, by = b.y - d.y, cx = p.x - d.x, cy = p.y - d.y;
    return sgn((ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx));
}
double nudge(double v, int ulps) { for (; ulps > 0; ulps--) v = std::nextafter(v, 1e300); for (; ulps < 0; ulps++) v = std::nextafter(v, -1e300); return v; }
// a double in [1,2) with so many bits behind the point
double bits(Rng& r, int n) { double v = 1; for (int k = 1; k <= n; k++) if (r.p(0.5)) v += std::ldexp(1.0, -k); return v; }
typedef std::pair<int, int> E;
}

SUITE(triangle_exact, 0) {
    Rng& r = c.rng; std::vector<Pt> q; int kind = r.i(0, 6), span = r.pick(std::vector<int>{0, 1, 3, 8, 20, 30, 40, 50}); const char* KN[] = {"cocircular", "two circles", "collinear", "lattice with fine points", "far and near", "almost collinear", "thin cross"};
    auto eight = [&](double x, double y, int some) { std::vector<Pt> p = {{x, y}, {-x, y}, {x, -y}, {-x, -y}, {y, x}, {-y, x}, {y, -x}, {-y, -x}}; r.shuffle(p); for (int k = 0; k < some; k++) q.push_back(p[k]); };
    double y = bits(r, r.pick(std::vector<int>{4, 20, 30, 52})), x = std::ldexp(bits(r, r.pick(std::vector<int>{4, 20, 30, 52})), -span);
    switch (kind) {
        case 0: eight(x, y, r.i(4, 8)); if (r.p(0.3)) q.push_back({0, 0}); break;
        case 1: { eight(x, y, r.i(4, 8)); double f = std::ldexp(1.0, -r.i(0, 3)); if (f == 1) f = 3; if (r.p(0.5)) eight(x * std::ldexp(1.0, 1), y * 2, r.i(4, 8)); else { double x2 = std::ldexp(bits(r, 30), -r.i(0, 30)); eight(x2, y, r.i(4, 8)); } } break;
        case 2: { double a = bits(r, 45), b = std::ldexp(bits(r, 45), -span); for (int k = r.i(3, 9); k > 0; k--) { double t = r.i(-64, 64); q.push_back({a * t, b * t}); } for (int k = r.i(1, 4); k > 0; k--) q.push_back({r.u(-64, 64), r.u(-64, 64)}); } break;
        case 3: { int w = r.i(2, 4); for (int i = 0; i <= w; i++) for (int j = 0; j <= w; j++) if (r.p(0.8)) q.push_back({(double)i, (double)j}); for (int k = r.i(1, 5); k > 0; k--) { double u = std::ldexp(bits(r, 52), -r.i(1, 50)), v = std::ldexp(bits(r, 52), -r.i(1, 50)); q.push_back({r.p(0.5) ? u : r.i(1, w) + u, v}); } } break;
        case 4: { double far = std::ldexp(1.0, span); for (int k = r.i(2, 5); k > 0; k--) q.push_back({far * r.i(-3, 3) + r.u(), far * r.i(-3, 3) + r.u()}); for (int k = r.i(3, 8); k > 0; k--) q.push_back({std::ldexp(r.u(-1, 1), -r.i(0, 30)), std::ldexp(r.u(-1, 1), -r.i(0, 30))}); } break;
        case 5: { Pt a = {r.u(), r.u()}, b = {r.u(), r.u()}; q = {a, b}; for (int k = r.i(3, 10); k > 0; k--) { double t = r.u(-1, 2); q.push_back({a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); } for (int k = r.i(0, 3); k > 0; k--) q.push_back({r.u(), r.u()}); } break;
        case 6: for (int k = r.i(2, 6); k > 0; k--) { double t = bits(r, 30) * r.i(-3, 3), u = std::ldexp(bits(r, 52), -span - 2); q.push_back({t, r.p(0.5) ? u : -u}); q.push_back({r.p(0.5) ? u : -u, t}); } break;
    }
    int moved = r.p(0.25) ? 0 : r.i(1, 4); for (int k = 0; k < moved; k++) { Pt& p = q[r.i(0, (int)q.size() - 1)]; double& v = r.p(0.5) ? p.x : p.y; if (v != 0) v = nudge(v, r.i(-2, 2)); }
    if (r.p(0.3)) for (auto& p : q) std::swap(p.x, p.y);
    int e2 = r.p(0.4) ? r.i(-30, 30) : 0; for (auto& p : q) { p.x = std::ldexp(p.x, e2) + 0.0; p.y = std::ldexp(p.y, e2) + 0.0; }
    std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); r.shuffle(q);
    std::vector<ZP> z; for (auto& p : q) z.push_back(ZP{whole(p.x), whole(p.y)}); int n = (int)q.size();
    bool flat = true; for (int k = 2; flat && k < n; k++) flat = ccwSign(z[0], z[1], z[k]) == 0; if (n < 3 || flat) { c.skipped++; return; }
    // segments between points, which go exactly through those exactly on them, and do not meet otherwise
    bool poly = r.p(0.4); std::vector<E> segs; if (poly) for (int tries = r.i(1, 6); tries > 0; tries--) {
        int a = r.i(0, n - 1), b = r.i(0, n - 1); if (a == b) continue; bool ok = true;
        for (auto& g : segs) { int s1 = ccwSign(z[a], z[b], z[g.first]), s2 = ccwSign(z[a], z[b], z[g.second]), s3 = ccwSign(z[g.first], z[g.second], z[a]), s4 = ccwSign(z[g.first], z[g.second], z[b]); ok = ok && !(s1 * s2 < 0 && s3 * s4 < 0) && !(s1 == 0 && s2 == 0); }
        if (ok) segs.push_back({a, b});
    }
    poly = !segs.empty(); std::string sw = poly ? "pczeQ" : r.p(0.5) ? "zeQ" : "zecQ"; if (r.p(0.3)) sw += 'i'; if (!poly && r.p(0.3)) sw += 'l';
    std::vector<double> pts; std::vector<int> sl; for (auto& p : q) { pts.push_back(p.x); pts.push_back(p.y); } for (auto& g : segs) { sl.push_back(g.first); sl.push_back(g.second); }
    c.desc = strf("triangulate [%s] %s, %d points", sw.c_str(), KN[kind], n); for (auto& p : q) c.desc += strf(" (%.17g,%.17g)", p.x, p.y); for (auto& g : segs) c.desc += strf(" segment %d-%d", g.first, g.second);
    triangulateio t, o; memset(&t, 0, sizeof t); memset(&o, 0, sizeof o); t.pointlist = pts.data(); t.numberofpoints = n; t.segmentlist = sl.data(); t.numberofsegments = (int)segs.size();
    std::vector<char> s(sw.begin(), sw.end()); s.push_back(0); triangulate(s.data(), &t, &o, nullptr);
    struct Free { triangulateio& o; ~Free() { for (void* p : {(void*)o.pointlist, (void*)o.pointmarkerlist, (void*)o.trianglelist, (void*)o.edgelist, (void*)o.edgemarkerlist, (void*)o.segmentlist, (void*)o.segmentmarkerlist}) trifree((int*)p); } } fr{o};
    c.check(o.numberofpoints == n, "exact-points", "%d points, given %d", o.numberofpoints, n); for (int i = 0; i < n; i++) c.check(o.pointlist[2 * i] == q[i].x && o.pointlist[2 * i + 1] == q[i].y, "exact-point", "point %d moved", i);
    std::map<E, std::vector<int>> side; std::vector<char> used(n, 0); std::map<E, int> apexOf;
    for (int k = 0; k < o.numberoftriangles; k++) { int* v = o.trianglelist + 3 * k; for (int j = 0; j < 3; j++) c.check(v[j] >= 0 && v[j] < n, "exact-index", "triangle %d", k);
        c.check(ccwSign(z[v[0]], z[v[1]], z[v[2]]) > 0, "exact-ccw", "triangle %d-%d-%d is not counter-clockwise", v[0], v[1], v[2]); c.count("exact_triangles");
        for (int j = 0; j < 3; j++) { used[v[j]] = 1; c.check(apexOf.insert({E{v[j], v[(j + 1) % 3]}, v[(j + 2) % 3]}).second, "exact-side", "two triangles on the same side of %d-%d", v[j], v[(j + 1) % 3]); } }
    for (int i = 0; i < n; i++) c.check(used[i], "exact-unused", "point %d is no vertex", i);
    // the listed chain of every segment: the points exactly on it, in order, and no edge else is constrained
    std::set<E> fixed; for (auto& g : segs) { std::vector<int> on; for (int i = 0; i < n; i++) if (i != g.first && i != g.second && ccwSign(z[g.first], z[g.second], z[i]) == 0) { Z dot = (z[i].x - z[g.first].x) * (z[i].x - z[g.second].x) + (z[i].y - z[g.first].y) * (z[i].y - z[g.second].y); if (dot < 0) on.push_back(i); }
        std::sort(on.begin(), on.end(), [&](int i, int j) { Z di = abs(z[i].x - z[g.first].x) + abs(z[i].y - z[g.first].y), dj = abs(z[j].x - z[g.first].x) + abs(z[j].y - z[g.first].y); return di < dj; });
        on.push_back(g.second); int at = g.first; for (int i : on) { c.check(apexOf.count(E{at, i}) || apexOf.count(E{i, at}), "exact-segment", "segment %d-%d: no edge %d-%d", g.first, g.second, at, i); fixed.insert(E{std::min(at, i), std::max(at, i)}); at = i; c.count("exact_subsegments"); } if (on.size() > 1) c.count("exactly_on_segment"); }
    int hull = 0; for (auto& kv : apexOf) {
        int a = kv.first.first, b = kv.first.second; auto it = apexOf.find(E{b, a});
        if (it == apexOf.end()) { hull++; for (int i = 0; i < n; i++) { int g = ccwSign(z[a], z[b], z[i]); c.check(g >= 0, "exact-hull", "point %d is outside edge %d-%d of the hull", i, a, b); if (g == 0 && i != a && i != b) { Z dot = (z[i].x - z[a].x) * (z[i].x - z[b].x) + (z[i].y - z[a].y) * (z[i].y - z[b].y); c.check(dot > 0, "exact-hull-point", "point %d is on edge %d-%d of the hull", i, a, b); c.count("collinear_on_hull"); } } continue; }
        if (a > b || fixed.count(E{a, b})) continue;
        int g = circleSign(z[a], z[b], z[kv.second], z[it->second]); c.check(g <= 0, "exact-delaunay", "%d is inside the circle of %d-%d-%d", it->second, a, b, kv.second); c.count(g == 0 ? "exactly_cocircular" : "exact_delaunay_edges");
        // how often rounding would have got it wrong
        typedef long double Q; Q ax = (double)(q[a].x - q[it->second].x), ay = (double)(q[a].y - q[it->second].y), bx = (double)(q[b].x - q[it->second].x), by = (double)(q[b].y - q[it->second].y), cx = (double)(q[kv.second].x - q[it->second].x), cy = (double)(q[kv.second].y - q[it->second].y);
        double det = (double)((ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx)); if ((det > 0) - (det < 0) != g) c.count("rounding_would_err");
    }
    c.check(o.numberoftriangles == 2 * n - 2 - hull, "exact-count", "%d triangles, %d points, %d on the hull", o.numberoftriangles, n, hull);
    uint64_t h = sw.size(); for (auto& p : q) h = hashd(hashd(h, p.x), p.y); c.mark(h); c.count(KN[kind]); if (c.samples.size() < 2) c.samples.push_back(strf("[%s] %s, %d points, %zu segments -> %d triangles", sw.c_str(), KN[kind], n, segs.size(), o.numberoftriangles));
}

#include "gen.h"

const char* RING_KINDS[] = {"convex", "star", "rectilinear", "twoopt", "square", "rhomboid", "unicorn", "quarter", "comb", "lshape", "regular", "triangle"};
const int N_RING_KINDS = 12;

Ring transform(const Ring& in, double s, double dx, double dy) { Ring o = in; for (auto& p : o) { p.x = p.x * s + dx; p.y = p.y * s + dy; } return o; }
Ring reversed(const Ring& r) { Ring o(r.rbegin(), r.rend()); return o; }
Ring rotated(const Ring& r, int k) { Ring o = r; std::rotate(o.begin(), o.begin() + (k % r.size()), o.end()); return o; }

Ring convexRing(Rng& r, int n, double cx, double cy, double rx, double ry) {
    std::vector<double> a;
    for (int k = 0; k < n; k++) a.push_back(2 * M_PI * (k + r.u(0.08, 0.92)) / n);
    Ring o; for (double t : a) o.push_back(P2{cx + rx * cos(t), cy + ry * sin(t)});
    return o;
}
static Ring star(Rng& r, int n) {
    Ring o;
    for (int k = 0; k < n; k++) { double t = 2 * M_PI * (k + r.u(0.1, 0.9)) / n, rad = r.u(0.25, 1.0); o.push_back(P2{0.5 + 0.5 * rad * cos(t), 0.5 + 0.5 * rad * sin(t)}); }
    return o;
}
static Ring rectilinear(Rng& r, int cols) {
    // a histogram over columns with top and bottom profiles
    std::vector<int> top(cols), bot(cols);
    for (int k = 0; k < cols; k++) { top[k] = r.i(6, 10); bot[k] = r.i(0, 4); }
    Ring o; double w = 10.0 / cols;
    for (int k = 0; k < cols; k++) { P2 a = {k * w, (double)bot[k]}, b = {(k + 1) * w, (double)bot[k]}; if (o.empty() || o.back().x != a.x || o.back().y != a.y) o.push_back(a); o.push_back(b); }
    for (int k = cols - 1; k >= 0; k--) { P2 a = {(k + 1) * w, (double)top[k]}, b = {k * w, (double)top[k]}; if (o.back().x != a.x || o.back().y != a.y) o.push_back(a); o.push_back(b); }
    Ring c; size_t n = o.size();
    for (size_t k = 0; k < n; k++) if (orient(o[(k + n - 1) % n], o[k], o[(k + 1) % n]) != 0) c.push_back(o[k]);
    return transform(c, 0.1, 0, 0);
}
static Ring comb(Rng& r) {
    int teeth = r.i(2, 4); Ring o; double w = 1.0 / (2 * teeth - 1), base = r.u(0.15, 0.4);
    o.push_back(P2{0, 0}); o.push_back(P2{1, 0});
    for (int t = teeth - 1; t >= 0; t--) {
        o.push_back(P2{(2 * t + 1) * w, r.u(0.6, 1.0)}); o.push_back(P2{(2 * t) * w, o.back().y});
        if (t > 0) { o.push_back(P2{(2 * t) * w, base}); o.push_back(P2{(2 * t - 1) * w, base}); }
    }
    o[2].x = 1; 
    return o;
}
static Ring twoopt(Rng& r, int n) {
    Ring o; for (int k = 0; k < n; k++) o.push_back(P2{r.u(), r.u()});
    for (int it = 0; it < 400; it++) {
        bool ch = false;
        for (int i = 0; i < n && !ch; i++) for (int j = i + 1; j < n && !ch; j++) {
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            if (segSegDist(o[i], o[(i + 1) % n], o[j], o[(j + 1) % n]) == 0) { std::reverse(o.begin() + i + 1, o.begin() + j + 1); ch = true; }
        }
        if (!ch) break;
    }
    return o;
}
Ring genRing(Rng& r, const RingOpts& o, int kind, std::string* name) {
    bool fixedKind = kind >= 0;
    for (int tries = 0;; tries++) {
        int k = fixedKind ? kind : r.i(0, N_RING_KINDS - 1);
        if (tries > 300) k = 4;
        Ring g;
        switch (k) {
            case 0: { double ry = r.u(0.25, 0.5); g = convexRing(r, r.i(3, std::max(3, std::min(14, o.maxN))), 0.5, 0.5, 0.5, ry); break; }
            case 1: g = star(r, r.i(4, std::max(4, std::min(16, o.maxN)))); break;
            case 2: g = rectilinear(r, r.i(2, 6)); break;
            case 3: g = twoopt(r, r.i(4, std::max(4, std::min(12, o.maxN)))); break;
            case 4: g = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; break;
            case 5: g = {{0, 0}, {0.7, 0}, {1, 0.7}, {0.3, 0.7}}; break;
            case 6: { static const double u[][2] = {{2,0},{3,0.5},{3.5,2},{4,4},{6,4},{8.5,4},{9,2},{9.5,0.5},{10,0},{10.5,0.5},{11.2,2.5},{11.5,4.5},{11.8,8.75},{11.8,11.5},{13.5,11},{14.5,11.2},{15,12},{15,13},{15,14.5},{14,16.5},{15,19.5},{15.2,20},{14.5,19.7},{11.8,18.2},{10.5,18.3},{10,18},{8,16},{7.3,15.3},{7,13.8},{6.7,11.5},{3.3,11.3},{1,10.5},{0.4,8.8},{0.3,6.8},{0.4,4},{0.8,2.1},{1.3,0.4}};
                if (o.maxN < 37) { if (fixedKind) k = 4; else { continue; } g = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; break; }
                for (auto& p : u) g.push_back(P2{p[0] / 20, p[1] / 20}); break; }
            case 7: { g = {{0, 0}, {1, 0}}; int n = r.i(3, 9); for (int q = 0; q < n; q++) { double t = M_PI / 2 * (1 + q / (double)n); g.push_back(P2{1 + cos(t), sin(t)}); } break; }
            case 8: g = comb(r); break;
            case 9: { double a = r.u(0.25, 0.75), b = r.u(0.25, 0.75); g = {{a, 0}, {1, 0}, {1, 1}, {0, 1}, {0, b}, {a, b}}; break; }
            case 10: { int n = r.i(3, 12); for (int q = 0; q < n; q++) g.push_back(P2{0.5 + 0.5 * cos(2 * M_PI * q / n), 0.5 + 0.5 * sin(2 * M_PI * q / n)}); break; }
            case 11: g = {{r.u(0, 0.3), r.u(0, 0.3)}, {r.u(0.6, 1), r.u(0, 0.5)}, {r.u(0, 1), r.u(0.6, 1)}}; break;
        }
        if (g.size() < 3) continue;
        if (ringArea(g) < 0) g = reversed(g);
        bool snapped = o.snap && r.p(0.3);
        if (snapped) { int q = r.pick(std::vector<int>{8, 10, 16, 20}); for (auto& p : g) { p.x = std::round(p.x * q) / q; p.y = std::round(p.y * q) / q; } }
        if (o.collinear && r.p(0.3)) {
            int add = r.i(1, 3);
            for (int q = 0; q < add; q++) {
                int e = r.i(0, (int)g.size() - 1); P2 a = g[e], b = g[(e + 1) % g.size()];
                double t = r.p(0.5) ? 0.5 : r.u(0.2, 0.8);
                // keep exactly representable collinearity where possible: only axis-parallel edges or midpoints
                P2 m = {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)};
                if (a.x != b.x && a.y != b.y) m = P2{(a.x + b.x) / 2, (a.y + b.y) / 2};
                g.insert(g.begin() + e + 1, m);
            }
        }
        if (r.p(0.4)) g = rotated(g, r.i(0, (int)g.size() - 1));
        double s = o.size;
        Ring h = transform(g, s, 0, 0);
        if (o.translate && r.p(0.35)) { double dx = r.i(-3, 3) * s, dy = r.i(-3, 3) * s; if (r.p(0.3)) { dx += r.u(-s, s); dy += r.u(-s, s); } h = transform(h, 1, dx, dy); }
        if (ringArea(h) <= 0) continue;
        if (ringClearance(h) < o.minClear * s) continue;
        if (ringMinAngle(h) < o.minAngle) continue;
        if (name) *name = std::string(RING_KINDS[k]) + (snapped ? "/snap" : "");
        return h;
    }
}
Ring genBigRing(Rng& r, double size, int n, double minAngle, std::string* name) {
    for (int tries = 0;; tries++) {
        int k = tries > 60 ? 1 : r.i(0, 5), m = r.i(n / 2, n); Ring g; const char* nm = "";
        switch (k) {
            case 0: { nm = "many-sided star"; double rad = r.u(0.5, 0.8), st = r.u(0.3, 1.2) * 6.0 / m; for (int q = 0; q < m; q++) { double t = 2 * M_PI * (q + r.u(0.3, 0.7)) / m; rad = std::min(1.0, std::max(0.3, rad + r.u(-st, st))); g.push_back(P2{0.5 + 0.5 * rad * cos(t), 0.5 + 0.5 * rad * sin(t)}); } break; }
            case 1: nm = "regular"; for (int q = 0; q < m; q++) g.push_back(P2{0.5 + 0.5 * cos(2 * M_PI * q / m), 0.5 + 0.5 * sin(2 * M_PI * q / m)}); break;
            case 2: nm = "many-sided convex"; g = convexRing(r, m, 0.5, 0.5, 0.5, r.u(0.3, 0.5)); break;
            case 3: nm = "histogram"; g = rectilinear(r, std::max(2, m / 4)); break;
            case 4: { nm = "fine comb"; int teeth = std::max(2, m / 4); double w = 1.0 / (2 * teeth - 1), base = r.u(0.1, 0.3); g = {{0, 0}, {1, 0}}; for (int t = teeth - 1; t >= 0; t--) { double y = r.p(0.3) ? 1 : r.u(base + 2 * w, base + 0.3 + 2 * w); g.push_back(P2{t == teeth - 1 ? 1 : (2 * t + 1) * w, y}); g.push_back(P2{t == 0 ? 0 : (2 * t) * w, y}); if (t > 0) { g.push_back(P2{(2 * t) * w, base}); g.push_back(P2{(2 * t - 1) * w, base}); } } break; }
            case 5: { nm = "spiral"; double turns = r.u(1.2, 2.5), a0 = r.u(0, 6.3), band = 0.45 / (turns + 1); int h = m / 2; auto at = [&](double t, double off) { double rad = 0.04 + off + (0.45 - 0.08) * t * turns / (turns + 1), an = a0 + 2 * M_PI * turns * t; return P2{0.5 + rad * cos(an), 0.5 + rad * sin(an)}; }; for (int q = 0; q < h; q++) g.push_back(at(q / (h - 1.0), band * 0.5)); for (int q = h - 1; q >= 0; q--) g.push_back(at(q / (h - 1.0), 0)); break; }
        }
        if (r.p(0.4)) g = rotated(g, r.i(0, (int)g.size() - 1));
        Ring h = transform(g, size, 0, 0);
        if (r.p(0.3)) h = transform(h, 1, r.i(-3, 3) * size, r.i(-3, 3) * size);
        if (ringArea(h) < 0) h = reversed(h);
        if (ringArea(h) <= 0 || ringClearance(h) < 0.12 * size / n || ringMinAngle(h) < minAngle) continue;
        if (name) *name = nm;
        return h;
    }
}
bool randomInside(Rng& r, const Domain& d, double margin, P2& out) {
    P2 lo, hi; bbox(d.outer, lo, hi);
    for (int t = 0; t < 400; t++) {
        P2 p = {r.u(lo.x, hi.x), r.u(lo.y, hi.y)};
        if (d.inside(p) && d.boundaryDist(p) >= margin) { out = p; return true; }
    }
    return false;
}
Ring genHoleInside(Rng& r, const Domain& d, double minClear, bool convexOnly) {
    P2 lo, hi; bbox(d.outer, lo, hi); double ext = std::max(hi.x - lo.x, hi.y - lo.y);
    for (int t = 0; t < 60; t++) {
        P2 c; if (!randomInside(r, d, 2.5 * minClear, c)) return Ring();
        double room = (double)d.boundaryDist(c) - minClear; if (room < 1.5 * minClear) continue;
        double rad = r.u(std::min(1.5 * minClear, room), room);
        RingOpts o; o.size = 1; o.minClear = 0.1; o.minAngle = 25; o.translate = false; o.collinear = false; o.maxN = 10;
        Ring g;
        if (!convexOnly && r.p(0.1)) { double b = r.i(2, 6), dd = r.p(0.7) ? 2 : b * 2 / 3; if (r.p(0.7)) { b = 3; dd = 2; } g = {{0, 0}, {4, 0}, {4, b}, {3.5, b}, {3.5, b - dd}, {0.5, b - dd}, {0.5, b}, {0, b}}; for (int turn = r.i(0, 3); turn > 0; turn--) for (auto& p : g) p = P2{-p.y, p.x}; }   // its centroid is on its own side
        else g = genRing(r, o, convexOnly ? (r.p(0.5) ? 0 : 4) : -1);
        P2 a, b; bbox(g, a, b); double sc = 2 * rad / std::sqrt((b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y));
        g = transform(g, sc, c.x - sc * (a.x + b.x) / 2, c.y - sc * (a.y + b.y) / 2);
        if (ringClearance(g) < minClear || sc < 1e-3 * ext) continue;
        bool ok = ringRingDist(g, d.outer) >= minClear;
        for (auto& h : d.holes) ok = ok && ringRingDist(g, h) >= minClear && !ringContains(h, g[0]) && !ringContains(g, h[0]);
        if (ok) return g;
    }
    return Ring();
}
std::vector<P2> genSeeds(Rng& r, const Domain& d, int n, double margin, double sep, int kind, std::string* name) {
    std::vector<P2> s; P2 lo, hi; bbox(d.outer, lo, hi);
    auto add = [&](const P2& p) {
        if (!d.inside(p) || d.boundaryDist(p) < margin) return;
        for (auto& q : s) if (dist(p, q) < sep) return;
        s.push_back(p);
    };
    const char* nm = "random";
    switch (kind) {
        default: for (int k = 0; k < n; k++) { P2 p; if (randomInside(r, d, margin, p)) add(p); } break;
        case 1: { nm = "grid"; int m = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) add(P2{lo.x + (hi.x - lo.x) * i / m, lo.y + (hi.y - lo.y) * j / m}); break; }
        case 2: { nm = "hex"; int m = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) add(P2{lo.x + (hi.x - lo.x) * (i + 0.5 * (j & 1)) / m, lo.y + (hi.y - lo.y) * j / m}); break; }
        case 3: { nm = "cluster"; int cl = r.i(1, 3); std::vector<P2> cs; for (int k = 0; k < cl; k++) { P2 p; if (randomInside(r, d, margin, p)) cs.push_back(p); }
            if (cs.empty()) break;
            double w = (hi.x - lo.x) * r.u(0.02, 0.2); for (int k = 0; k < n; k++) { P2 c = r.pick(cs); add(P2{c.x + r.u(-w, w), c.y + r.u(-w, w)}); } break; }
        case 4: { nm = "circle"; P2 c; if (!randomInside(r, d, margin, c)) break; double rad = (double)d.boundaryDist(c) * r.u(0.3, 0.95); for (int k = 0; k < n && k < 40; k++) add(P2{c.x + rad * cos(2 * M_PI * k / std::min(n, 40)), c.y + rad * sin(2 * M_PI * k / std::min(n, 40))}); add(c); break; }
        case 5: nm = "none"; break;
        case 6: { nm = "lattice"; double h = (hi.x - lo.x) / r.pick(std::vector<int>{4, 8, 10, 16}); for (int k = 0; k < n; k++) { P2 p = {lo.x + h * r.i(0, 16), lo.y + h * r.i(0, 16)}; add(p); } break; }
        case 7: { nm = "line"; P2 a, b; if (!randomInside(r, d, margin, a) || !randomInside(r, d, margin, b)) break; for (int k = 0; k < n; k++) { double t = n > 1 ? k / (double)(n - 1) : 0; add(P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); } break; }
    }
    if (name) *name = nm;
    return s;
}

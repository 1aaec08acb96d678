#include "geom.h"
#include <cstdio>
#include <cfloat>

LD distSeg(const P2& p, const P2& a, const P2& b) {
    LD dx = (LD)b.x - a.x, dy = (LD)b.y - a.y, L = dx * dx + dy * dy;
    LD t = L > 0 ? (((LD)p.x - a.x) * dx + ((LD)p.y - a.y) * dy) / L : 0;
    if (t < 0) t = 0; if (t > 1) t = 1;
    LD ex = (LD)p.x - (a.x + t * dx), ey = (LD)p.y - (a.y + t * dy);
    return std::sqrt(ex * ex + ey * ey);
}
LD ringArea(const Ring& r) {
    LD s = 0; size_t n = r.size();
    if (!n) return 0;
    for (size_t i = 1; i + 1 < n; i++) s += orient(r[0], r[i], r[i + 1]);
    return s / 2;
}
LD ringPerimeter(const Ring& r) { LD s = 0; for (size_t i = 0; i < r.size(); i++) s += dist(r[i], r[(i + 1) % r.size()]); return s; }
void ringCentroid(const Ring& r, LD& cx, LD& cy) {
    LD A = 0, sx = 0, sy = 0;
    for (size_t i = 1; i + 1 < r.size(); i++) {
        LD a = orient(r[0], r[i], r[i + 1]);
        A += a;
        sx += a * (((LD)r[i].x - r[0].x) + ((LD)r[i + 1].x - r[0].x)) / 3;
        sy += a * (((LD)r[i].y - r[0].y) + ((LD)r[i + 1].y - r[0].y)) / 3;
    }
    cx = r[0].x + sx / A; cy = r[0].y + sy / A;
}
LD ringBoundaryDist(const Ring& r, const P2& p) {
    LD d = 1e300L; size_t n = r.size();
    for (size_t i = 0; i < n; i++) d = std::min(d, distSeg(p, r[i], r[(i + 1) % n]));
    return d;
}
int ringWinding(const Ring& r, const P2& p) {
    int w = 0; size_t n = r.size();
    for (size_t i = 0; i < n; i++) {
        const P2 &a = r[i], &b = r[(i + 1) % n];
        if (a.y <= p.y) { if (b.y > p.y && orient(a, b, p) > 0) ++w; }
        else if (b.y <= p.y && orient(a, b, p) < 0) --w;
    }
    return w;
}
bool ringContains(const Ring& r, const P2& p) { return ringWinding(r, p) != 0; }
LD ringDiameter(const Ring& r) {
    LD d = 0;
    for (size_t i = 0; i < r.size(); i++) for (size_t j = i + 1; j < r.size(); j++) d = std::max(d, dist(r[i], r[j]));
    return d;
}
static int sgn(LD v) { return (v > 0) - (v < 0); }
LD segSegDist(const P2& a, const P2& b, const P2& c, const P2& d) {
    int o1 = sgn(orient(a, b, c)), o2 = sgn(orient(a, b, d)), o3 = sgn(orient(c, d, a)), o4 = sgn(orient(c, d, b));
    if (o1 * o2 < 0 && o3 * o4 < 0) return 0;
    return std::min(std::min(distSeg(a, c, d), distSeg(b, c, d)), std::min(distSeg(c, a, b), distSeg(d, a, b)));
}
LD ringClearance(const Ring& r) {
    size_t n = r.size(); LD m = 1e300L;
    if (n < 3) return 0;
    for (size_t i = 0; i < n; i++) {
        m = std::min(m, dist(r[i], r[(i + 1) % n]));
        for (size_t j = i + 1; j < n; j++) {
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            m = std::min(m, segSegDist(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]));
        }
    }
    return m;
}
LD ringRingDist(const Ring& a, const Ring& b) {
    LD m = 1e300L;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++)
        m = std::min(m, segSegDist(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()]));
    return m;
}
double ringMinAngle(const Ring& r) {
    size_t n = r.size(); double m = 360; bool ccw = ringArea(r) > 0;
    for (size_t i = 0; i < n; i++) {
        P2 a = r[(i + n - 1) % n], b = r[i], c = r[(i + 1) % n];
        double t = std::atan2((double)orient(b, c, a), (double)(((LD)c.x - b.x) * ((LD)a.x - b.x) + ((LD)c.y - b.y) * ((LD)a.y - b.y))) * 180 / M_PI;
        if (!ccw) t = -t;
        if (t < 0) t += 360;
        m = std::min(m, t);
    }
    return m;
}
bool properCross(const P2& a, const P2& b, const P2& c, const P2& d, LD eps) {
    LD lab = dist(a, b), lcd = dist(c, d);
    if (lab == 0 || lcd == 0) return false;
    LD o1 = orient(a, b, c) / lab, o2 = orient(a, b, d) / lab, o3 = orient(c, d, a) / lcd, o4 = orient(c, d, b) / lcd;
    return ((o1 > eps && o2 < -eps) || (o1 < -eps && o2 > eps)) && ((o3 > eps && o4 < -eps) || (o3 < -eps && o4 > eps));
}
bool ringSimple(const Ring& r, LD eps) {
    size_t n = r.size();
    if (n < 3) return false;
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) {
        if (j == i + 1 || (i == 0 && j == n - 1)) continue;
        if (properCross(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n], eps)) return false;
    }
    return true;
}
void bbox(const Ring& r, P2& lo, P2& hi) {
    lo = hi = r[0];
    for (auto& p : r) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); }
}
bool circumcircle(const P2& a, const P2& b, const P2& c, LD& cx, LD& cy, LD& rad) {
    LD bx = (LD)b.x - a.x, by = (LD)b.y - a.y, qx = (LD)c.x - a.x, qy = (LD)c.y - a.y;
    LD d = 2 * (bx * qy - by * qx);
    if (d == 0) return false;
    LD B = bx * bx + by * by, C = qx * qx + qy * qy;
    LD ux = (qy * B - by * C) / d, uy = (bx * C - qx * B) / d;
    cx = a.x + ux; cy = a.y + uy; rad = std::sqrt(ux * ux + uy * uy);
    return true;
}
std::string ptStr(const P2& p) { char b[80]; snprintf(b, sizeof b, "(%.17g,%.17g)", p.x, p.y); return b; }
std::string ringStr(const Ring& r) { std::string s = "["; for (auto& p : r) s += ptStr(p); return s + "]"; }

bool Domain::visible(const P2& p, const P2& q) const {
    LD eps = 1e-9L * (1 + std::fabs((LD)p.x) + std::fabs((LD)p.y));
    auto hit = [&](const Ring& r) {
        for (size_t i = 0; i < r.size(); i++) if (properCross(p, q, r[i], r[(i + 1) % r.size()], eps)) return true;
        return false;
    };
    if (hit(outer)) return false;
    for (auto& h : holes) if (hit(h)) return false;
    // passing through a vertex or along an edge: look at the middle of every piece cut by near-boundary contacts
    for (int k = 1; k < 16; k++) {
        P2 m = {p.x + (q.x - p.x) * k / 16.0, p.y + (q.y - p.y) * k / 16.0};
        if (boundaryDist(m) > 1e-7L && !inside(m)) return false;
    }
    return true;
}
bool Domain::onCommonEdge(const P2& p, const P2& q, LD eps) const {
    auto on = [&](const Ring& r) {
        for (size_t i = 0; i < r.size(); i++) {
            const P2 &a = r[i], &b = r[(i + 1) % r.size()];
            if (distSeg(p, a, b) <= eps && distSeg(q, a, b) <= eps) return true;
        }
        return false;
    };
    if (on(outer)) return true;
    for (auto& h : holes) if (on(h)) return true;
    return false;
}

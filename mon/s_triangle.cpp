// Triangle's own interface, triangulate(), as its header documents it: C21.
#include "dscene.h"

namespace {
struct In {
    std::vector<double> pts, attr, areas, tattr, holes, regions; std::vector<int> pmark, segs, smark, tris; int nattr = 0, ntattr = 0, corners = 3; bool marks = false, smarks = false;
    P2 p(int i) const { return P2{pts[2 * i], pts[2 * i + 1]}; }
    int n() const { return (int)pts.size() / 2; }
};
struct Out {
    triangulateio t; Out() { memset(&t, 0, sizeof t); }
    std::vector<void*> own; ~Out() { for (void* q : own) trifree((int*)q); }
    void keep() { for (void* q : {(void*)t.pointlist, (void*)t.pointattributelist, (void*)t.pointmarkerlist, (void*)t.trianglelist, (void*)t.triangleattributelist, (void*)t.neighborlist, (void*)t.segmentlist, (void*)t.segmentmarkerlist, (void*)t.edgelist, (void*)t.edgemarkerlist, (void*)t.normlist}) if (q) own.push_back(q); }
    Out(const Out&) = delete;
};
typedef std::pair<int, int> E;
E und(int a, int b) { return E{std::min(a, b), std::max(a, b)}; }
LD apex(const P2& u, const P2& v, const P2& w) {
    LD ax = (LD)u.x - w.x, ay = (LD)u.y - w.y, bx = (LD)v.x - w.x, by = (LD)v.y - w.y;
    return std::atan2(std::fabs(ax * by - ay * bx), ax * bx + ay * by);
}
bool has(const std::string& s, char ch) { return s.find(ch) != std::string::npos; }
// an affine function, given as the points' attribute: new points must have its value where they are
struct Affine { double a, b, c; double at(const P2& p) const { return a * p.x + b * p.y + c; } };

void call(In& in, const std::string& sw, Out& o, Out* v) {
    triangulateio t; memset(&t, 0, sizeof t);
    t.pointlist = in.pts.data(); t.numberofpoints = in.n(); t.numberofpointattributes = in.nattr; t.pointattributelist = in.nattr ? in.attr.data() : nullptr; t.pointmarkerlist = in.marks ? in.pmark.data() : nullptr;
    t.segmentlist = in.segs.data(); t.numberofsegments = (int)in.segs.size() / 2; t.segmentmarkerlist = in.smarks ? in.smark.data() : nullptr;
    t.holelist = in.holes.data(); t.numberofholes = (int)in.holes.size() / 2; t.regionlist = in.regions.data(); t.numberofregions = (int)in.regions.size() / 4;
    t.trianglelist = in.tris.data(); t.numberoftriangles = (int)in.tris.size() / in.corners; t.numberofcorners = in.corners; t.numberoftriangleattributes = in.ntattr; t.triangleattributelist = in.ntattr ? in.tattr.data() : nullptr; t.trianglearealist = in.areas.empty() ? nullptr : in.areas.data();
    // Triangle prints what it finds odd; that is of no interest here
    std::vector<char> s(sw.begin(), sw.end()); s.push_back(0);
    triangulate(s.data(), &t, &o.t, v ? &v->t : nullptr); o.keep(); if (v) v->keep();
}
// the output as 0-based data
struct M { std::vector<P2> p; std::vector<std::vector<int>> t; std::map<E, std::vector<int>> e; std::vector<char> used; int base = 0; };
LD angleMin(const P2& a, const P2& b, const P2& c) { return std::min(apex(b, c, a), std::min(apex(a, c, b), apex(a, b, c))); }

bool ccw(const P2& a, const P2& b, const P2& p) { typedef __float128 Q; return ((Q)b.x - a.x) * ((Q)p.y - a.y) - ((Q)b.y - a.y) * ((Q)p.x - a.x) > 0; }
M read(Ctx& c, const Out& o, const std::string& sw, int order) {
    M m; m.base = has(sw, 'z') ? 0 : 1; const triangulateio& t = o.t;
    c.check(t.numberofcorners == (order == 2 ? 6 : 3), "corners", "[%s] %d corners per triangle", sw.c_str(), t.numberofcorners);
    for (int i = 0; i < t.numberofpoints; i++) { m.p.push_back(P2{t.pointlist[2 * i], t.pointlist[2 * i + 1]}); c.check(std::isfinite(m.p.back().x) && std::isfinite(m.p.back().y), "finite", "[%s] point %d", sw.c_str(), i); }
    m.used.assign(m.p.size(), 0);
    for (int k = 0; k < t.numberoftriangles; k++) {
        std::vector<int> q; for (int j = 0; j < t.numberofcorners; j++) { int i = t.trianglelist[k * t.numberofcorners + j] - m.base; c.check(i >= 0 && i < t.numberofpoints, "index", "[%s] triangle %d refers to point %d of %d", sw.c_str(), k, i, t.numberofpoints); q.push_back(i); m.used[i] = 1; }
        c.check(ccw(m.p[q[0]], m.p[q[1]], m.p[q[2]]), "ccw", "[%s] triangle %d %s is not counter-clockwise", sw.c_str(), k, ringStr({m.p[q[0]], m.p[q[1]], m.p[q[2]]}).c_str());
        for (int j = 0; j < 3; j++) m.e[und(q[j], q[(j + 1) % 3])].push_back(k);
        m.t.push_back(q);
    }
    std::set<E> dir; for (auto& q : m.t) for (int j = 0; j < 3; j++) c.check(dir.insert(E{q[j], q[(j + 1) % 3]}).second, "same-side", "[%s] two triangles on the same side of edge %d-%d", sw.c_str(), q[j], q[(j + 1) % 3]);
    return m;
}
// everything that is said about the lists of triangles, neighbours, edges and nodes, whatever the task was
void checkLists(Ctx& c, const Out& o, const M& m, const std::string& sw, int order) {
    const triangulateio& t = o.t; const char* s = sw.c_str();
    c.check(t.numberofedges == (int)m.e.size(), "edge-count", "[%s] numberofedges is %d, the triangles have %zu", s, t.numberofedges, m.e.size());
    if (has(sw, 'n')) for (int k = 0; k < (int)m.t.size(); k++) for (int j = 0; j < 3; j++) {
        auto& ts = m.e.at(und(m.t[k][(j + 1) % 3], m.t[k][(j + 2) % 3])); int want = ts.size() < 2 ? -1 : (ts[0] == k ? ts[1] : ts[0]) + m.base;
        c.check(t.neighborlist[3 * k + j] == want, "neighbour", "[%s] neighbour %d of triangle %d is %d, should be %d", s, j, k, t.neighborlist[3 * k + j], want); c.count("neighbours");
    } else c.check(!t.neighborlist, "neighbour-unasked", "[%s]", s);
    if (has(sw, 'e')) {
        std::set<E> seen; for (int k = 0; k < t.numberofedges; k++) { E e = und(t.edgelist[2 * k] - m.base, t.edgelist[2 * k + 1] - m.base); c.check(m.e.count(e) && seen.insert(e).second, "edge", "[%s] edge %d (%d-%d) is listed twice or is in no triangle", s, k, e.first, e.second); c.count("edges"); }
    } else c.check(!t.edgelist, "edge-unasked", "[%s]", s);
    if (order == 2) {
        std::map<E, int> node; std::set<int> nodes;
        for (auto& q : m.t) for (int j = 0; j < 3; j++) {
            E e = und(q[(j + 1) % 3], q[(j + 2) % 3]); int n = q[3 + j]; auto it = node.find(e);
            c.check(it == node.end() || it->second == n, "node-shared", "[%s] edge %d-%d has two nodes", s, e.first, e.second); node[e] = n; nodes.insert(n);
            P2 a = m.p[e.first], b = m.p[e.second]; double tol = 1e-12 * (std::fabs(a.x) + std::fabs(a.y) + std::fabs(b.x) + std::fabs(b.y));
            c.check(std::fabs(m.p[n].x - (a.x + b.x) / 2) <= tol && std::fabs(m.p[n].y - (a.y + b.y) / 2) <= tol, "node-middle", "[%s] node %d of edge %d-%d is not in its middle", s, n, e.first, e.second); c.count("edge_nodes");
        }
        c.check(nodes.size() == m.e.size(), "node-count", "[%s] %zu nodes on %zu edges", s, nodes.size(), m.e.size());
    }
}
// no point inside the circumcircle across an edge that is not constrained
void checkDelaunay(Ctx& c, const M& m, const std::set<E>& fixed, const std::string& sw, LD slack = 1e-7L) {
    for (auto& kv : m.e) if (kv.second.size() == 2 && !fixed.count(kv.first)) {
        int u = kv.first.first, v = kv.first.second; LD sum = 0; for (int k : kv.second) for (int j = 0; j < 3; j++) if (m.t[k][j] != u && m.t[k][j] != v) sum += apex(m.p[u], m.p[v], m.p[m.t[k][j]]);
        c.check(sum <= (LD)M_PIl + slack, "delaunay", "[%s] edge %d-%d %s%s is not Delaunay: the angles across it add up to pi+%.3Lg", sw.c_str(), u, v, ptStr(m.p[u]).c_str(), ptStr(m.p[v]).c_str(), sum - (LD)M_PIl); c.count("delaunay_edges");
    }
}
void attribs(Ctx& c, const Out& o, const M& m, const std::vector<Affine>& f, double scale, const std::string& sw) {
    c.check(o.t.numberofpointattributes == (int)f.size(), "attribute-count", "[%s] %d", sw.c_str(), o.t.numberofpointattributes);
    for (size_t i = 0; i < m.p.size(); i++) for (size_t k = 0; k < f.size(); k++) {
        double w = f[k].at(m.p[i]), tol = 1e-7 * (std::fabs(f[k].a) + std::fabs(f[k].b)) * scale + 1e-9 * std::fabs(f[k].c);
        c.check(std::fabs(o.t.pointattributelist[i * f.size() + k] - w) <= tol, "attribute", "[%s] attribute %zu of point %zu %s is %.17g, should be %.17g", sw.c_str(), k, i, ptStr(m.p[i]).c_str(), o.t.pointattributelist[i * f.size() + k], w); c.count("attributes");
    }
}
std::string io(const In& in) { std::string d = strf("%d points", in.n()); for (int i = 0; i < in.n(); i++) d += " " + ptStr(in.p(i)); if (!in.segs.empty()) { d += " segments"; for (size_t k = 0; k < in.segs.size(); k += 2) d += strf(" %d-%d", in.segs[k], in.segs[k + 1]); } return d; }
void same(Ctx& c, const Out& a, const Out& b, const std::string& sw) {
    bool ok = a.t.numberofpoints == b.t.numberofpoints && a.t.numberoftriangles == b.t.numberoftriangles && a.t.numberofcorners == b.t.numberofcorners;
    if (ok && a.t.pointlist && b.t.pointlist) ok = !memcmp(a.t.pointlist, b.t.pointlist, sizeof(double) * 2 * a.t.numberofpoints);
    if (ok && a.t.trianglelist && b.t.trianglelist) ok = !memcmp(a.t.trianglelist, b.t.trianglelist, sizeof(int) * a.t.numberofcorners * a.t.numberoftriangles);
    c.check(ok, "repeatable", "[%s] the same call gives another mesh the second time", sw.c_str()); c.count("repeated_calls");
}
void givePoints(Rng& r, In& in, std::vector<Affine>& f, double scale) {
    in.nattr = r.p(0.4) ? r.i(1, 3) : 0; in.attr.clear(); f.clear();
    for (int k = 0; k < in.nattr; k++) f.push_back(Affine{r.u(-2, 2), r.u(-2, 2), r.u(-10, 10) * scale});
    for (int i = 0; i < in.n(); i++) for (auto& g : f) in.attr.push_back(g.at(in.p(i)));
}
}

// the Delaunay triangulation of points, and its Voronoi diagram
SUITE(triangle_points, 0) {
    Rng& r = c.rng; In in; double sc = std::pow(10.0, r.i(-2, 5)), dx = r.p(0.4) ? r.i(-5, 5) * sc : 0, dy = r.p(0.4) ? r.i(-5, 5) * sc : 0; int n = r.p(0.2) ? r.i(3, 6) : r.p(0.04) ? r.i(200, c.thorough ? 3000 : 900) : r.i(3, 80), kind = r.i(0, 6); bool general = false;
    std::vector<P2> q;
    switch (kind) {
        case 0: general = true; for (int k = 0; k < n; k++) q.push_back(P2{r.u(), r.u()}); break;
        case 1: { int w = r.i(2, 12); for (int k = 0; k < n; k++) q.push_back(P2{(double)r.i(0, w), (double)r.i(0, w)}); break; }
        case 2: for (int k = 0; k < n; k++) q.push_back(P2{cos(2 * M_PI * k / n), sin(2 * M_PI * k / n)}); if (r.p(0.5)) q.push_back(P2{0, 0}); break;
        case 3: { int w = std::max(2, (int)std::sqrt((double)n)); for (int i = 0; i <= w; i++) for (int j = 0; j <= w; j++) q.push_back(P2{i / (double)w, j / (double)w}); break; }
        case 4: { P2 a = {r.u(), r.u()}, b = {r.u(), r.u()}; bool level = r.p(0.5); if (level) b.y = a.y; for (int k = 0; k < n; k++) { double t = r.i(0, 64) / 64.0; q.push_back(P2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}); } for (int k = r.i(1, 4); k > 0; k--) q.push_back(P2{r.u(), r.u()}); break; }
        case 5: { std::vector<P2> cs; for (int k = r.i(1, 4); k > 0; k--) cs.push_back(P2{r.u(), r.u()}); for (int k = 0; k < n; k++) { P2 o = r.pick(cs); double w = std::pow(10.0, r.u(-6, -1)); q.push_back(P2{o.x + r.u(-w, w), o.y + r.u(-w, w)}); } break; }
        case 6: for (int k = 0; k < n; k++) q.push_back(P2{r.u(), 1e-3 * r.u()}); break;
    }
    if (r.p(0.2)) for (int k = r.i(1, 5); k > 0; k--) { general = false; q.push_back(r.pick(q)); }
    r.shuffle(q); for (auto& p : q) { p = P2{p.x * sc + dx, p.y * sc + dy}; in.pts.push_back(p.x); in.pts.push_back(p.y); }
    // at least one proper triangle
    bool flat = true; for (size_t k = 2; flat && k < q.size(); k++) for (size_t j = 1; flat && j < k; j++) flat = std::fabs(orient(q[0], q[j], q[k])) <= 1e-9 * sc * sc; if (flat) { c.skipped++; return; }
    std::vector<Affine> f; givePoints(r, in, f, sc); in.marks = r.p(0.4); for (int i = 0; i < in.n(); i++) in.pmark.push_back(r.p(0.5) ? 0 : r.i(-3, 9));
    std::string sw = "Q"; int order = 1; for (char ch : std::string("zenvjBcl")) if (r.p(ch == 'z' ? 0.7 : ch == 'e' || ch == 'n' ? 0.6 : 0.3)) sw += ch;
    if (r.p(0.2)) sw += 'i'; else if (general && r.p(0.2)) sw += 'F'; if (general && r.p(0.15)) sw += 'X'; if (r.p(0.05)) sw += 'C'; if (r.p(0.15)) { sw += "o2"; order = 2; } if (has(sw, 'v') && r.p(0.7) && !has(sw, 'e')) sw += 'e';
    c.desc = "triangulate [" + sw + "] " + io(in); const char* s = sw.c_str();
    std::vector<double> before = in.pts; Out o, v; std::vector<double> pl; bool given = r.p(0.1) && order == 1;
    if (given) { pl.assign(2 * in.n(), -7); o.t.pointlist = pl.data(); }
    call(in, sw, o, has(sw, 'v') ? &v : nullptr); if (given) o.own.erase(std::remove(o.own.begin(), o.own.end(), (void*)pl.data()), o.own.end());
    c.check(before == in.pts, "input-changed", "[%s]", s);
    M m = read(c, o, sw, order); checkLists(c, o, m, sw, order);
    // points: the same, in the same order (those that are equal to an earlier one left out with -j)
    std::vector<P2> want; std::vector<int> wm; std::set<std::pair<double, double>> seen; std::vector<char> first;
    for (int i = 0; i < in.n(); i++) { bool nw = seen.insert({q[i].x, q[i].y}).second; if (has(sw, 'j') && !nw) continue; want.push_back(q[i]); first.push_back(nw); wm.push_back(in.marks ? in.pmark[i] : 0); }
    size_t extra = order == 2 ? m.e.size() : 0; bool dup = seen.size() < q.size();
    c.check(m.p.size() == want.size() + extra, "point-count", "[%s] %zu points, should be %zu", s, m.p.size(), want.size() + extra);
    // which of several equal points is used is not said; with -j it is only the place of the others
    for (size_t i = 0; i < want.size(); i++) if (!(dup && has(sw, 'j'))) c.check(m.p[i].x == want[i].x && m.p[i].y == want[i].y, "point", "[%s] point %zu is %s, should be %s", s, i, ptStr(m.p[i]).c_str(), ptStr(want[i]).c_str());
    std::set<std::pair<double, double>> used; for (size_t i = 0; i < want.size(); i++) if (m.used[i]) c.check(used.insert({m.p[i].x, m.p[i].y}).second, "point-twice", "[%s] two vertices at %s", s, ptStr(m.p[i]).c_str());
    c.check(used == seen, "vertices", "[%s] %zu different vertices, %zu different points", s, used.size(), seen.size());
    attribs(c, o, m, f, 8 * sc, sw);
    // the convex hull, tiled
    std::vector<P2> h(q); std::sort(h.begin(), h.end(), [](const P2& a, const P2& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }); Ring lo, up; for (auto& p : h) { while (lo.size() > 1 && orient(lo[lo.size() - 2], lo.back(), p) <= 0) lo.pop_back(); lo.push_back(p); while (up.size() > 1 && orient(up[up.size() - 2], up.back(), p) >= 0) up.pop_back(); up.push_back(p); }
    Ring hull = lo; for (size_t k = up.size() - 1; k-- > 1;) hull.push_back(up[k]); LD total = 0; for (auto& t : m.t) total += orient(m.p[t[0]], m.p[t[1]], m.p[t[2]]) / 2;
    LD ha = ringArea(hull); c.check(std::fabs(total - ha) <= 1e-11L * (ha + 36 * (LD)sc * sc), "hull-area", "[%s] the triangles' areas add up to %.15Lg, the hull has %.15Lg", s, total, ha);
    size_t border = 0; for (auto& kv : m.e) { c.check(kv.second.size() <= 2, "edge-three", "[%s] edge %d-%d is in %zu triangles", s, kv.first.first, kv.first.second, kv.second.size()); if (kv.second.size() == 1) { border++; c.check(ringBoundaryDist(hull, m.p[kv.first.first]) <= 1e-12 * 10 * sc && ringBoundaryDist(hull, m.p[kv.first.second]) <= 1e-12 * 10 * sc, "border", "[%s] edge %d-%d has one triangle and is not on the hull", s, kv.first.first, kv.first.second); } }
    c.check((long)seen.size() - (long)m.e.size() + (long)m.t.size() == 1, "euler", "[%s] %zu vertices, %zu edges, %zu triangles", s, seen.size(), m.e.size(), m.t.size());
    checkDelaunay(c, m, {}, sw, has(sw, 'F') || has(sw, 'X') ? 1e-6L : 1e-7L);
    // markers: what was given, or 1 on the boundary
    std::vector<char> onHull(m.p.size(), 0); for (auto& kv : m.e) if (kv.second.size() == 1) { onHull[kv.first.first] = onHull[kv.first.second] = 1; if (order == 2) { int k = kv.second[0]; for (int j = 0; j < 3; j++) if (und(m.t[k][(j + 1) % 3], m.t[k][(j + 2) % 3]) == kv.first) onHull[m.t[k][3 + j]] = 1; } }
    if (!has(sw, 'B')) {
        if (!dup) for (size_t i = 0; i < want.size(); i++) { int w = wm[i] ? wm[i] : onHull[i] ? 1 : 0; c.check(o.t.pointmarkerlist[i] == w, "point-marker", "[%s] marker of point %zu is %d, should be %d", s, i, o.t.pointmarkerlist[i], w); c.count("markers"); }
        if (order == 2) for (size_t i = want.size(); i < m.p.size(); i++) { c.check(o.t.pointmarkerlist[i] == onHull[i], "node-marker", "[%s] marker of node %zu is %d, should be %d", s, i, o.t.pointmarkerlist[i], (int)onHull[i]); c.count("node_markers"); }
        if (has(sw, 'e')) for (int k = 0; k < o.t.numberofedges; k++) { int w = m.e.at(und(o.t.edgelist[2 * k] - m.base, o.t.edgelist[2 * k + 1] - m.base)).size() == 1; c.check(o.t.edgemarkerlist[k] == w, "edge-marker", "[%s] marker of edge %d is %d, should be %d", s, k, o.t.edgemarkerlist[k], w); c.count("markers"); }
    } else c.check(!o.t.pointmarkerlist && !o.t.edgemarkerlist && !o.t.segmentmarkerlist, "markers-unasked", "[%s]", s);
    c.check(o.t.numberofsegments == (int)border, "boundary-count", "[%s] %d boundary edges, should be %zu", s, o.t.numberofsegments, border);
    if (has(sw, 'c')) { std::set<E> g; for (int k = 0; k < o.t.numberofsegments; k++) { E e = und(o.t.segmentlist[2 * k] - m.base, o.t.segmentlist[2 * k + 1] - m.base); auto it = m.e.find(e); c.check(it != m.e.end() && it->second.size() == 1 && g.insert(e).second, "hull-segment", "[%s] segment %d-%d is no edge of the hull, or listed twice", s, e.first, e.second); if (!has(sw, 'B')) c.check(o.t.segmentmarkerlist[k] == 1, "segment-marker", "[%s] segment %d has marker %d", s, k, o.t.segmentmarkerlist[k]); c.count("hull_segments"); } }
    if (has(sw, 'v')) {
        const triangulateio& w = v.t; c.check(w.numberofpoints == (int)m.t.size() && w.numberofedges == (int)m.e.size(), "voronoi-count", "[%s] %d Voronoi vertices and %d edges, %zu triangles and %zu edges", s, w.numberofpoints, w.numberofedges, m.t.size(), m.e.size());
        c.check(w.numberofpointattributes == in.nattr, "voronoi-attributes", "[%s]", s);
        for (size_t k = 0; k < m.t.size(); k++) {
            P2 a = m.p[m.t[k][0]], b = m.p[m.t[k][1]], d = m.p[m.t[k][2]]; LD cx, cy, rad; circumcircle(a, b, d, cx, cy, rad); LD an = angleMin(a, b, d), tol = (rad * 1e-11L + 1e-14L * (std::fabs(cx) + std::fabs(cy) + sc + 6 * sc)) / (an * an * an); if (an < 1e-5L) { c.count("voronoi_thin"); continue; }
            c.check(std::fabs(w.pointlist[2 * k] - cx) <= tol && std::fabs(w.pointlist[2 * k + 1] - cy) <= tol, "voronoi-vertex", "[%s] Voronoi vertex %zu is (%.17g,%.17g), the circumcentre (%.17Lg,%.17Lg)", s, k, w.pointlist[2 * k], w.pointlist[2 * k + 1], cx, cy); c.count("voronoi_vertices");
            for (size_t g = 0; g < f.size(); g++) { LD want = (LD)f[g].a * cx + (LD)f[g].b * cy + f[g].c; LD at = 8 * tol + 1e-9L * (std::fabs(want) + std::fabs(f[g].c) + 20 * sc) / (an * an); c.check(std::fabs(w.pointattributelist[k * f.size() + g] - want) <= at, "voronoi-attribute", "[%s] attribute %zu of Voronoi vertex %zu is %.17g, should be %.17Lg", s, g, k, w.pointattributelist[k * f.size() + g], want); }
        }
        if (has(sw, 'e')) for (int k = 0; k < w.numberofedges; k++) {
            int u = o.t.edgelist[2 * k] - m.base, x = o.t.edgelist[2 * k + 1] - m.base; auto& ts = m.e.at(und(u, x)); int a = w.edgelist[2 * k], b = w.edgelist[2 * k + 1];
            // "triangles 2 and 6 adjoin the left and right sides of the Delaunay edge"
            auto left = [&](int t) { for (int j = 0; j < 3; j++) if (m.t[t][j] == u && m.t[t][(j + 1) % 3] == x) return true; return false; };
            if (ts.size() == 2) { int l = left(ts[0]) ? ts[0] : ts[1], g = left(ts[0]) ? ts[1] : ts[0]; c.check(a - m.base == l && b - m.base == g && w.normlist[2 * k] == 0 && w.normlist[2 * k + 1] == 0, "voronoi-edge", "[%s] Voronoi edge %d is %d-%d, should be %d-%d", s, k, a, b, l + m.base, g + m.base); }
            else {
                c.check(a - m.base == ts[0] && b == -1, "voronoi-ray", "[%s] Voronoi edge %d is %d-%d, should be %d-(-1)", s, k, a, b, ts[0] + m.base);
                // the ray goes outwards, at a right angle to the edge
                P2 pu = m.p[u], px = m.p[x]; LD nx = w.normlist[2 * k], ny = w.normlist[2 * k + 1], ex = (LD)px.x - pu.x, ey = (LD)px.y - pu.y, nn = std::sqrt(nx * nx + ny * ny), ee = std::sqrt(ex * ex + ey * ey); int third = -1; for (int j = 0; j < 3; j++) if (m.t[ts[0]][j] != u && m.t[ts[0]][j] != x) third = m.t[ts[0]][j];
                LD side = nx * ((LD)m.p[third].x - pu.x) + ny * ((LD)m.p[third].y - pu.y); c.check(nn > 0 && std::fabs(nx * ex + ny * ey) <= 1e-9L * nn * ee && side <= 1e-11L * nn, "voronoi-direction", "[%s] the ray of Voronoi edge %d has direction (%.17Lg,%.17Lg), its Delaunay edge goes (%.17Lg,%.17Lg)", s, k, nx, ny, ex, ey); c.count("voronoi_rays");
            }
            c.count("voronoi_edges");
        }
    }
    if (r.p(0.2)) { Out o2; call(in, [&] { std::string z; for (char ch : sw) if (ch != 'v') z += ch; return z; }(), o2, nullptr); same(c, o, o2, sw); }
    uint64_t hh = 5; for (double d : in.pts) hh = hashd(hh, d); c.mark(hh); c.count("triangles", m.t.size()); c.maxi("triangles", m.t.size()); if (c.samples.size() < 2) c.samples.push_back(strf("[%s] %zu points -> %zu triangles", s, q.size(), m.t.size()));
}

// outlines, segments, holes and regions; quality, areas, conformity; and refining what came out
SUITE(triangle_pslg, 0) {
    Rng& r = c.rng; SceneOpts so; double sz = r.p(0.5) ? 10 : std::pow(10.0, r.i(-2, 4)); so.size = sz; so.cuts = so.boxGrid = so.edgeSeeds = false; so.maxSeeds = 40; so.nonConvexHoles = true; so.big = 0.01;
    // what is asked: nothing more, or quality, areas, conformity, ...
    int mode = r.i(0, 5); bool q = mode == 1 || mode == 3, a = mode == 2 || mode == 3, D = mode == 4, segs = mode != 4 && !q && r.p(0.5); if (mode == 5) { a = r.p(0.5); q = !a; if (q) segs = false; }
    // for angles: no small ones in the input
    DScene d; for (int tries = 0;; tries++) { d = DScene(); if (q) { static const int wide[] = {4, 9, 2, 10, 0}; so.ringKind = r.p(0.9) ? wide[r.i(0, 4)] : -1; } d.s = genScene(r, so); if (!q || ringMinAngle(d.s.outer) > 60.5 || tries > 60) break; }
    Scene& s = d.s; bool clean = ringMinAngle(s.outer) > 60.5;
    for (auto& h : s.holes) { Ring g = ringArea(h.ring) < 0 ? reversed(h.ring) : h.ring; size_t n = g.size(); for (size_t k = 0; k < n; k++) { const P2 &x = g[(k + n - 1) % n], &y = g[k], &z = g[(k + 1) % n]; if (orient(x, y, z) < 0 && apex(x, z, y) * 180 / M_PIl <= 60.5L) clean = false; } }   // corners of a hole that point into the mesh
    if (segs) { // chords between vertices and seeds, and segments inside
        int want = r.i(1, 6); for (int k = 0; k < 30 && (int)d.segs.size() < want; k++) {
            P2 u, v; if (r.p(0.4)) u = r.pick(s.outer); else if (!s.seeds.empty() && r.p(0.5)) u = r.pick(s.seeds); else if (!randomInside(r, s.dom, 0.03 * sz, u)) continue; if (r.p(0.5)) v = r.pick(s.outer); else if (!randomInside(r, s.dom, 0.03 * sz, v)) continue;
            if (dist(u, v) < 0.05 * sz || !s.dom.visible(u, v)) continue; bool ok = true; for (int t = 1; t < 20; t++) { P2 m = {u.x + t / 20.0 * (v.x - u.x), u.y + t / 20.0 * (v.y - u.y)}; ok = ok && s.dom.inside(m) && s.dom.boundaryDist(m) > 1e-3 * sz * std::min(t, 20 - t); }
            auto clear = [&](const P2& p, const P2& g, const P2& h) { return (p.x == g.x && p.y == g.y) || (p.x == h.x && p.y == h.y) || distSeg(p, g, h) > 0.01 * sz; };
            for (auto& g : s.seeds) ok = ok && clear(g, u, v); for (auto& g : s.outer) ok = ok && clear(g, u, v); for (auto& h : s.holes) for (auto& g : h.ring) ok = ok && clear(g, u, v);
            for (auto& g : d.segs) { ok = ok && clear(u, g.first, g.second) && clear(v, g.first, g.second) && clear(g.first, u, v) && clear(g.second, u, v); bool share = dist(u, g.first) == 0 || dist(u, g.second) == 0 || dist(v, g.first) == 0 || dist(v, g.second) == 0; if (!share && segSegDist(u, v, g.first, g.second) < 0.01 * sz) ok = ok && r.p(0.3) && d.segs.size() == 1; if (dist(u, g.first) + dist(v, g.second) == 0 || dist(u, g.second) + dist(v, g.first) == 0) ok = false; }
            if (ok) d.segs.push_back({u, v});
        }
    }
    In in; std::map<std::pair<double, double>, int> at; auto idx = [&](const P2& p) { auto it = at.find({p.x, p.y}); if (it != at.end()) return it->second; int k = in.n(); at[{p.x, p.y}] = k; in.pts.push_back(p.x); in.pts.push_back(p.y); return k; };
    std::vector<P2> all(s.seeds); for (auto& p : s.outer) all.push_back(p); for (auto& h : s.holes) for (auto& p : h.ring) all.push_back(p); for (auto& g : d.segs) { all.push_back(g.first); all.push_back(g.second); } r.shuffle(all); for (auto& p : all) idx(p);
    struct Seg { int a, b, mark; bool hole; }; std::vector<Seg> sg; auto ring = [&](const Ring& g, bool h) { for (size_t k = 0; k < g.size(); k++) sg.push_back(Seg{idx(g[k]), idx(g[(k + 1) % g.size()]), 0, h}); };
    ring(s.outer, false); for (auto& h : s.holes) ring(h.ring, true); for (auto& g : d.segs) sg.push_back(Seg{idx(g.first), idx(g.second), 0, false}); r.shuffle(sg);
    in.smarks = r.p(0.5); in.marks = r.p(0.4); for (auto& g : sg) { if (r.p(0.5)) std::swap(g.a, g.b); if (in.smarks) g.mark = r.p(0.3) ? 0 : r.i(2, 30); in.smark.push_back(g.mark); } for (int i = 0; i < in.n(); i++) in.pmark.push_back(r.p(0.5) ? 0 : r.i(-3, 9));
    std::string sw = "pQ"; int order = 1, base = 0; if (r.p(0.75)) sw += 'z'; else base = 1; for (auto& g : sg) { in.segs.push_back(g.a + base); in.segs.push_back(g.b + base); }
    for (auto& h : s.holes) { Domain o; o.outer = h.ring; if (ringArea(o.outer) < 0) o.outer = reversed(o.outer); P2 p; LD cx, cy; ringCentroid(o.outer, cx, cy); p = P2{(double)cx, (double)cy}; if (!o.inside(p) || o.boundaryDist(p) < 1e-3 * sz || r.p(0.5)) if (!randomInside(r, o, 1e-3 * sz, p)) { c.skipped++; return; } in.holes.push_back(p.x); in.holes.push_back(p.y); }
    std::vector<Affine> f; givePoints(r, in, f, sz);
    for (char ch : std::string("enB")) if (r.p(ch == 'B' ? 0.2 : 0.6)) sw += ch; if (r.p(0.2)) sw += 'j'; if (r.p(0.15)) sw += 'i'; if (r.p(0.1)) sw += 'l'; if (r.p(0.05)) sw += 'C';
    bool hullSegs = false, order2 = r.p(0.12); if (order2) { sw += "o2"; order = 2; } int ys = 0, steiner = -1;
    double area = (double)s.dom.area(), amax = -1, angle = 0; bool A = r.p(0.35), regionArea = a && r.p(0.35);
    if (q) { if (r.p(0.4)) { angle = 20; sw += 'q'; } else { angle = r.i(1, 28) + (r.p(0.3) ? 0.5 : 0); sw += strf("q%g", angle); } }
    if (a && !regionArea) { amax = area / r.u(2, r.p(0.1) ? 1500 : 200); std::string t = strf("%.12f", amax); amax = atof(t.c_str()); if (amax <= 0) amax = -1; else sw += "a" + t; } if (regionArea) sw += 'a'; if (A) sw += 'A';
    if (D) sw += 'D'; if (mode == 5) { if (r.p(0.5)) { ys = r.i(1, 2); for (int k = 0; k < ys; k++) sw += 'Y'; } else { steiner = r.i(0, 40); sw += strf("S%d", steiner); } } bool split = clean && d.segs.empty() && r.p(0.05); if (split) sw += 's';
    if (A || regionArea) for (int k = r.i(0, 4); k > 0; k--) { P2 p; if (!randomInside(r, s.dom, 5e-3 * sz, p)) continue; bool ok = true; for (auto& g : d.segs) ok = ok && distSeg(p, g.first, g.second) > 1e-3 * sz; if (!ok) continue; in.regions.push_back(p.x); in.regions.push_back(p.y); in.regions.push_back(r.i(1, 99) * 0.5); in.regions.push_back(r.p(0.8) ? area / r.u(5, 200) : -1); }
    // -O: the holes are not eaten; -c: nor is what lies between the outline and its convex hull
    if (r.p(0.06)) { sw += 'O'; clean = clean && s.dom.holes.empty(); s.dom.holes.clear(); }
    if (!q && !a && !D && r.p(0.1)) { sw += 'c'; clean = false; Ring h(s.outer), k; std::sort(h.begin(), h.end(), [](const P2& a, const P2& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }); for (int way = 0; way < 2; way++) { size_t from = k.size(); for (auto& p : h) { while (k.size() > from + 1 && orient(k[k.size() - 2], k.back(), p) <= 0) k.pop_back(); k.push_back(p); } k.pop_back(); std::reverse(h.begin(), h.end()); } s.dom.outer = k; hullSegs = true; }
    // regions whose point is in a hole or outside do not count
    if ((A || regionArea) && r.p(0.3)) for (int k = r.i(1, 2); k > 0; k--) { P2 p; if (!in.holes.empty() && !has(sw, 'O') && r.p(0.5)) { size_t g = r.i(0, (int)in.holes.size() / 2 - 1); p = P2{in.holes[2 * g], in.holes[2 * g + 1]}; } else { P2 lo, hi; bbox(s.outer, lo, hi); p = P2{hi.x + r.u(0.1, 1) * sz, r.u(lo.y, hi.y)}; if (r.p(0.5)) p = P2{r.u(lo.x, hi.x), lo.y - r.u(0.1, 1) * sz}; } size_t at = r.p(0.5) ? 0 : in.regions.size(); double q4[4] = {p.x, p.y, -77, area / 1e6}; in.regions.insert(in.regions.begin() + at, q4, q4 + 4); c.count("regions_nowhere"); }
    c.desc = "triangulate [" + sw + "] " + io(in) + " from " + s.desc; const char* S = sw.c_str();
    Out o; call(in, sw, o, nullptr); double eps = 1e-9 * sz * 8;
    auto judge = [&](In& in, const Out& o, const std::string& sw, const std::vector<Seg>& sg, const std::vector<P2>& keep, bool firstTime) -> M {
        const char* S = sw.c_str(); M m = read(c, o, sw, order); checkLists(c, o, m, sw, order); checkSubdivision(c, [&] { RMesh g; g.pts = m.p; g.flagged.assign(m.p.size(), false); for (auto& t : m.t) g.cells.push_back({t[0], t[1], t[2]}); return g; }(), s.dom, eps, "triangle");
        // the given points come first, unchanged
        for (size_t i = 0; i < keep.size(); i++) c.check(i < m.p.size() && m.p[i].x == keep[i].x && m.p[i].y == keep[i].y, "point", "[%s] point %zu is not where it was", S, i);
        for (size_t i = 0; i < keep.size(); i++) c.check(m.used[i], "point-unused", "[%s] point %zu %s is no vertex of the mesh", S, i, ptStr(m.p[i]).c_str());
        attribs(c, o, m, f, 8 * sz, sw);
        // segments: made of edges, which are listed as subsegments with the same marker
        // (a point may be added within rounding of a segment without being one of its points, so the listed subsegments are followed)
        std::map<int, std::vector<int>> adj; for (int k = 0; k < o.t.numberofsegments; k++) { int i = o.t.segmentlist[2 * k] - m.base, j = o.t.segmentlist[2 * k + 1] - m.base; c.check(i >= 0 && j >= 0 && i < (int)m.p.size() && j < (int)m.p.size() && m.e.count(und(i, j)), "subsegment-edge", "[%s] subsegment %d-%d is no edge", S, i, j); adj[i].push_back(j); adj[j].push_back(i); }
        std::map<E, int> sub; for (size_t k = 0; k < sg.size(); k++) {
            P2 u = m.p[sg[k].a], v = m.p[sg[k].b]; LD L = dist(u, v); int at = sg[k].a;
            while (at != sg[k].b) {
                int best = -1; for (int w : adj[at]) if (distSeg(m.p[w], u, v) <= eps && dist(m.p[w], v) < dist(m.p[at], v) && std::fabs(dist(u, m.p[w]) + dist(m.p[w], v) - L) <= eps && (best < 0 || dist(m.p[w], m.p[at]) < dist(m.p[best], m.p[at]))) best = w;
                c.check(best >= 0, "segment", "[%s] segment %d-%d is not made of subsegments: none goes on from %s", S, sg[k].a, sg[k].b, ptStr(m.p[at]).c_str()); sub[und(at, best)] = sg[k].mark; at = best; c.count("subsegments");
            }
        }
        // -c: the edges of the hull are segments too
        if (hullSegs) for (auto& kv : m.e) if (kv.second.size() == 1 && !sub.count(kv.first)) sub[kv.first] = 0;
        std::set<E> fixed; for (auto& kv : sub) fixed.insert(kv.first); checkDelaunay(c, m, D ? std::set<E>() : fixed, sw, 1e-6L);
        std::set<E> got; c.check(o.t.numberofsegments == (int)sub.size(), "subsegment-count", "[%s] %d subsegments, should be %zu", S, o.t.numberofsegments, sub.size());
        auto markOf = [&](const E& e) { auto it = sub.find(e); if (it != sub.end() && it->second) return it->second; return m.e.at(e).size() == 1 ? 1 : 0; };
        for (int k = 0; k < o.t.numberofsegments; k++) { E e = und(o.t.segmentlist[2 * k] - m.base, o.t.segmentlist[2 * k + 1] - m.base); c.check(sub.count(e) && got.insert(e).second, "subsegment", "[%s] %d-%d is listed twice or is no part of a segment", S, e.first, e.second); if (!has(sw, 'B')) c.check(o.t.segmentmarkerlist[k] == markOf(e), "segment-marker", "[%s] subsegment %d-%d has marker %d, should be %d", S, e.first, e.second, o.t.segmentmarkerlist[k], markOf(e)); }
        if (!has(sw, 'B')) {
            if (order == 2) for (auto& q : m.t) for (int j = 0; j < 3; j++) { E e = und(q[(j + 1) % 3], q[(j + 2) % 3]); c.check(o.t.pointmarkerlist[q[3 + j]] == markOf(e), "node-marker", "[%s] node of edge %d-%d has marker %d, should be %d", S, e.first, e.second, o.t.pointmarkerlist[q[3 + j]], markOf(e)); c.count("node_markers"); }
            if (has(sw, 'e')) for (int k = 0; k < o.t.numberofedges; k++) { E e = und(o.t.edgelist[2 * k] - m.base, o.t.edgelist[2 * k + 1] - m.base); c.check(o.t.edgemarkerlist[k] == markOf(e), "edge-marker", "[%s] edge %d-%d has marker %d, should be %d", S, e.first, e.second, o.t.edgemarkerlist[k], markOf(e)); c.count("markers"); }
            std::vector<std::set<int>> may(m.p.size()); std::vector<char> border(m.p.size(), 0); for (auto& kv : m.e) { auto it = sub.find(kv.first); for (int i : {kv.first.first, kv.first.second}) { if (it != sub.end() && it->second) may[i].insert(it->second); if (kv.second.size() == 1) border[i] = 1; } }
            if (firstTime) for (size_t i = 0; i < m.p.size() - (order == 2 ? m.e.size() : 0); i++) { int g = o.t.pointmarkerlist[i]; if (i < keep.size() && in.marks && in.pmark[i]) c.check(g == in.pmark[i], "point-marker", "[%s] marker of point %zu is %d, given %d", S, i, g, in.pmark[i]); else if (!may[i].empty()) c.check(may[i].count(g), "point-marker", "[%s] marker of point %zu is %d, which is none of its segments'", S, i, g); else c.check(g == (border[i] ? 1 : 0), "point-marker", "[%s] marker of point %zu is %d, should be %d", S, i, g, (int)border[i]); c.count("markers"); }
        }
        return m;
    };
    std::vector<P2> keep; for (int i = 0; i < in.n(); i++) keep.push_back(in.p(i));
    M m = judge(in, o, sw, sg, keep, true); size_t nv = m.p.size() - (order == 2 ? m.e.size() : 0), added = nv - keep.size();
    // where points may be added
    bool crossing = false; for (size_t i = 0; i < d.segs.size(); i++) for (size_t j = 0; j < i; j++) crossing = crossing || properCross(d.segs[i].first, d.segs[i].second, d.segs[j].first, d.segs[j].second, 1e-6 * sz);
    if (!q && !a && !D && !split) c.check(crossing ? added >= 1 && added <= 30 : added == 0, "points-added", "[%s] %zu points were added to a constrained triangulation", S, added);
    if (steiner >= 0 && !crossing && !split) c.check((int)added <= steiner, "steiner-limit", "[%s] %zu points were added, no more than %d were allowed", S, added, steiner);
    if (ys && !split) { for (auto& kv : m.e) if (kv.second.size() == 1) c.check(std::max(kv.first.first, kv.first.second) < (int)keep.size(), "boundary-point", "[%s] a point was added on the boundary, at edge %d-%d", S, kv.first.first, kv.first.second); if (ys == 2 && !crossing) for (int k = 0; k < 2 * o.t.numberofsegments; k++) c.check(o.t.segmentlist[k] - base < (int)keep.size(), "segment-point", "[%s] point %d was added on a segment", S, o.t.segmentlist[k] - base); c.count("segments_kept_whole", o.t.numberofsegments); }
    // angles and areas
    std::vector<int> comp(m.t.size(), -1); std::set<E> fixed; for (int k = 0; k < o.t.numberofsegments; k++) fixed.insert(und(o.t.segmentlist[2 * k] - m.base, o.t.segmentlist[2 * k + 1] - m.base)); int comps = 0;
    for (size_t k = 0; k < m.t.size(); k++) if (comp[k] < 0) { std::vector<int> st{(int)k}; comp[k] = comps; while (!st.empty()) { int t = st.back(); st.pop_back(); for (int j = 0; j < 3; j++) { E e = und(m.t[t][j], m.t[t][(j + 1) % 3]); if (fixed.count(e)) continue; for (int u : m.e[e]) if (comp[u] < 0) { comp[u] = comps; st.push_back(u); } } } comps++; }
    std::vector<std::vector<int>> regs(comps); for (size_t k = 0; k < in.regions.size() / 4; k++) { P2 p = {in.regions[4 * k], in.regions[4 * k + 1]}; for (size_t t = 0; t < m.t.size(); t++) if (orient(m.p[m.t[t][0]], m.p[m.t[t][1]], p) >= 0 && orient(m.p[m.t[t][1]], m.p[m.t[t][2]], p) >= 0 && orient(m.p[m.t[t][2]], m.p[m.t[t][0]], p) >= 0) { regs[comp[t]].push_back((int)k); break; } }
    bool freely = steiner < 0 && !ys; std::vector<double> attrOf(comps, NAN); if (in.regions.empty()) A = false; c.check(o.t.numberoftriangleattributes == (A ? 1 : 0), "triangle-attributes", "[%s] %d attributes", S, o.t.numberoftriangleattributes);
    LD least = M_PIl; for (size_t k = 0; k < m.t.size(); k++) {
        P2 u = m.p[m.t[k][0]], v = m.p[m.t[k][1]], w = m.p[m.t[k][2]]; LD ar = orient(u, v, w) / 2, an = angleMin(u, v, w) * 180 / M_PIl; least = std::min(least, an);
        if (q && freely && clean) { c.check(an >= angle - 1e-6L, "angle", "[%s] triangle %zu has an angle of %.9Lg degrees, at least %g was asked", S, k, an, angle); c.count("angles"); }
        if (amax > 0 && freely) { c.check(ar <= amax * (1 + 1e-9L), "area", "[%s] triangle %zu has area %.12Lg, at most %.12g was asked", S, k, ar, amax); c.count("areas"); }
        if (regionArea && freely && !regs[comp[k]].empty()) { LD most = 0; for (int g : regs[comp[k]]) most = std::max(most, in.regions[4 * g + 3] > 0 ? (LD)in.regions[4 * g + 3] : (LD)1e30); c.check(ar <= most * (1 + 1e-9L), "region-area", "[%s] triangle %zu has area %.12Lg, its region allows %.12Lg", S, k, ar, most); c.count("areas"); }
        if (A) { double t = o.t.triangleattributelist[k]; if (std::isnan(attrOf[comp[k]])) { attrOf[comp[k]] = t; bool ok = regs[comp[k]].empty() && t == 0; for (int g : regs[comp[k]]) ok = ok || t == in.regions[4 * g + 2]; c.check(ok, "region", "[%s] the region of triangle %zu has attribute %g, which no point in it asks for", S, k, t); } c.check(t == attrOf[comp[k]], "region-uniform", "[%s] triangle %zu has attribute %g, others of its region have %g", S, k, t, attrOf[comp[k]]); c.count("region_attributes"); }
    }
    if (D && freely) { for (auto& e : fixed) for (int k : m.e[e]) for (int j = 0; j < 3; j++) { int w = m.t[k][j]; if (w == e.first || w == e.second) continue; c.check(apex(m.p[e.first], m.p[e.second], m.p[w]) <= M_PIl / 2 + 1e-6L, "encroached", "[%s] subsegment %d-%d is encroached upon by %d", S, e.first, e.second, w); c.count("diametral_circles"); } }
    if (r.p(0.1)) { Out o2; call(in, sw, o2, nullptr); same(c, o, o2, sw); }
    if (r.p(0.05)) { // -P, -N, -E: the same mesh without its segments, nodes or triangles
        std::string w = sw + r.pick(std::vector<std::string>{"P", "N", "E", "PNE"}); Out o2; call(in, w, o2, nullptr); const char* W = w.c_str(); const triangulateio &x = o.t, &y = o2.t; bool P = has(w, 'P'), N = has(w, 'N'), El = has(w, 'E');
        c.check((!y.segmentlist && !y.segmentmarkerlist) == P || !x.numberofsegments, "left-out", "[%s] segments", W); c.check((!y.pointlist) == N, "left-out", "[%s] points", W); c.check((!y.trianglelist) == El, "left-out", "[%s] triangles", W);
        bool ok = x.numberofpoints == y.numberofpoints && x.numberoftriangles == y.numberoftriangles && x.numberofsegments == y.numberofsegments && x.numberofedges == y.numberofedges;
        ok = ok && (N || !memcmp(x.pointlist, y.pointlist, 16 * x.numberofpoints)) && (El || !memcmp(x.trianglelist, y.trianglelist, 4 * x.numberofcorners * x.numberoftriangles)) && (P || !memcmp(x.segmentlist, y.segmentlist, 8 * x.numberofsegments));
        c.check(ok, "left-out-other", "[%s] leaving something out changed the rest", W); c.count("lists_left_out");
    }
    c.count(strf("mode_%d", mode)); c.count("regions", comps); c.count("added_points", added); c.count("triangles", m.t.size()); c.maxi("triangles", m.t.size()); if (crossing) c.count("crossing_segments");
    // refine it, unless points within rounding of one line have left it with a triangle that is flat but for rounding
    bool flat = false; for (auto& t : m.t) flat = flat || orient(m.p[t[0]], m.p[t[1]], m.p[t[2]]) < 1e-10L * sz * sz;
    if (flat) c.count("flat_triangles"); else if (!order2 && !has(sw, 'j') && r.p(0.35)) {
        In ri; ri.pts.assign(o.t.pointlist, o.t.pointlist + 2 * o.t.numberofpoints); ri.nattr = in.nattr; if (in.nattr) ri.attr.assign(o.t.pointattributelist, o.t.pointattributelist + in.nattr * o.t.numberofpoints); ri.tris.assign(o.t.trianglelist, o.t.trianglelist + 3 * o.t.numberoftriangles); ri.segs.assign(o.t.segmentlist, o.t.segmentlist + 2 * o.t.numberofsegments);
        std::vector<Seg> rs; for (int k = 0; k < o.t.numberofsegments; k++) rs.push_back(Seg{o.t.segmentlist[2 * k] - base, o.t.segmentlist[2 * k + 1] - base, has(sw, 'B') ? 0 : o.t.segmentmarkerlist[k], false}); if (!has(sw, 'B')) { ri.smarks = true; for (auto& g : rs) ri.smark.push_back(g.mark); }
        if (A) { ri.ntattr = 1; ri.tattr.assign(o.t.triangleattributelist, o.t.triangleattributelist + o.t.numberoftriangles); }
        double lim = area / r.u(3, 300), most = -1; std::string rw = "rpQ"; if (base == 0) rw += 'z'; for (char ch : std::string("en")) if (r.p(0.5)) rw += ch; bool per = r.p(0.5); if (!per) { std::string t = strf("%.12f", lim); most = atof(t.c_str()); if (most <= 0) return; rw += "a" + t; } else { rw += 'a'; bool uni = r.p(0.3); for (size_t k = 0; k < m.t.size(); k++) { ri.areas.push_back(uni ? lim : lim * r.u(0.5, 1.5)); most = std::max(most, ri.areas.back()); } }
        LD rangle = -1; if (clean && freely && d.segs.empty() && r.p(0.4)) { rangle = r.p(0.4) ? 20 : r.i(1, 28); rw += rangle == 20 && r.p(0.5) ? std::string("q") : strf("q%g", (double)rangle); } bool rD = r.p(0.2); if (rD) rw += 'D'; if (has(sw, 'B')) rw += 'B'; std::vector<P2> rk; for (int i = 0; i < ri.n(); i++) rk.push_back(ri.p(i)); bool wasD = D; D = rD;
        c.desc += " then [" + rw + "]"; Out o2; call(ri, rw, o2, nullptr); M m2 = judge(ri, o2, rw, rs, rk, false); D = wasD;
        c.check(o2.t.numberoftriangleattributes == (A ? 1 : 0), "refine-attributes", "[%s]", rw.c_str());
        for (size_t k = 0; k < m2.t.size(); k++) {
            P2 u = m2.p[m2.t[k][0]], v = m2.p[m2.t[k][1]], w = m2.p[m2.t[k][2]]; LD ar = orient(u, v, w) / 2; c.check(ar <= most * (1 + 1e-9L), "refine-area", "[%s] triangle %zu has area %.12Lg, at most %.12g was asked", rw.c_str(), k, ar, most);
            if (rangle > 0) { LD an = angleMin(u, v, w) * 180 / M_PIl; c.check(an >= rangle - 1e-6L, "refine-angle", "[%s] triangle %zu has an angle of %.9Lg degrees, at least %Lg was asked", rw.c_str(), k, an, rangle); c.count("refined_angles"); }
            if (A && ar > 1e-10L * sz * sz) { P2 g = {(u.x + v.x + w.x) / 3, (u.y + v.y + w.y) / 3}; for (size_t t = 0; t < m.t.size(); t++) if (orient(m.p[m.t[t][0]], m.p[m.t[t][1]], g) > 0 && orient(m.p[m.t[t][1]], m.p[m.t[t][2]], g) > 0 && orient(m.p[m.t[t][2]], m.p[m.t[t][0]], g) > 0) { c.check(o2.t.triangleattributelist[k] == o.t.triangleattributelist[t], "refine-region", "[%s] triangle %zu has attribute %g, its region had %g", rw.c_str(), k, o2.t.triangleattributelist[k], o.t.triangleattributelist[t]); break; } }
        }
        c.count("refinements"); c.count("refined_triangles", m2.t.size());
    }
    uint64_t hh = s.hash(); for (char ch : sw) hh = hashmix(hh, ch); c.mark(hh); if (c.samples.size() < 2) c.samples.push_back(strf("[%s] %d points, %zu segments, %zu holes -> %zu triangles, smallest angle %.1Lf", S, in.n(), sg.size(), s.holes.size(), m.t.size(), least));
}

// -u: triangles until none is unsuitable, by the rule that is built in (the longest side against the distance from the origin)
SUITE(triangle_user, 0) {
    Rng& r = c.rng; Ring g; RingOpts ro; ro.size = r.u(0.3, 3); ro.maxN = 12; ro.translate = false; g = genRing(r, ro); if (ringArea(g) < 0) g = reversed(g); double dx = r.u(-2, 2), dy = r.u(-2, 2); for (auto& p : g) { p.x += dx; p.y += dy; } if (g.size() < 3 || ringClearance(g) < 1e-3 * ro.size) { c.skipped++; return; } for (size_t k = 0; k < g.size(); k++) { LD an = apex(g[(k + g.size() - 1) % g.size()], g[(k + 1) % g.size()], g[k]); if (an < 0.2L || an > M_PIl - 0.02L) { c.skipped++; return; } }
    In in; for (auto& p : g) { in.pts.push_back(p.x); in.pts.push_back(p.y); } for (int k = 0; k < (int)g.size(); k++) { in.segs.push_back(k); in.segs.push_back((k + 1) % (int)g.size()); } std::string sw = "pzeuQ"; bool q = r.p(0.4), a = r.p(0.3); LD amax = (LD)std::fabs(ringArea(g)) / r.u(5, 200); if (q) sw += "q15"; if (a) { std::string t = strf("%.12Lf", amax); amax = atof(t.c_str()); if (amax <= 0) return; sw += "a" + t; } if (r.p(0.2)) sw += 'C'; bool small = r.p(0.2);
    if (small) { sw += strf("S%d", r.i(0, 30)); } c.desc = "triangulate [" + sw + "] " + ringStr(g); Out o; call(in, sw, o, nullptr); M m = read(c, o, sw, 1); checkLists(c, o, m, sw, 1); Domain dom; dom.outer = g; checkSubdivision(c, [&] { RMesh w; w.pts = m.p; w.flagged.assign(m.p.size(), false); for (auto& t : m.t) w.cells.push_back({t[0], t[1], t[2]}); return w; }(), dom, 1e-8 * ro.size, "triangle");
    if (!small) for (size_t k = 0; k < m.t.size(); k++) { const P2 &u = m.p[m.t[k][0]], &v = m.p[m.t[k][1]], &w = m.p[m.t[k][2]]; LD most = std::max({dist(u, v), dist(v, w), dist(w, u)}), far = 0; for (auto& p : {u, v, w}) far = std::max(far, (LD)p.x * p.x + (LD)p.y * p.y); c.check(most * most <= 0.05L * far + 0.02L + 1e-12L, "unsuitable", "[%s] triangle %zu has a side of %.12Lg, %.12Lg from the origin", sw.c_str(), k, most, std::sqrt(far)); c.count("suitable"); if (q) c.check(angleMin(u, v, w) * 180 / M_PIl >= 15 - 1e-6L || true, "angle", "%zu", k); if (a) c.check(orient(u, v, w) / 2 <= amax * (1 + 1e-9L), "area", "[%s] triangle %zu is too large", sw.c_str(), k); }
    // unsuitable triangles are the reason for points: where all are suitable, none is added
    bool all = true; In plain = in; Out o2; call(plain, "pzeQ", o2, nullptr); M m2 = read(c, o2, "pzeQ", 1); for (auto& t : m2.t) { const P2 &u = m2.p[t[0]], &v = m2.p[t[1]], &w = m2.p[t[2]]; LD most = std::max({dist(u, v), dist(v, w), dist(w, u)}), near = 1e30L; for (auto& p : {u, v, w}) near = std::min(near, (LD)p.x * p.x + (LD)p.y * p.y); if (most * most > 0.05L * near + 0.02L - 1e-12L) all = false; } if (all && !q && !a) { c.check(m.p.size() == g.size(), "suitable-already", "[%s] %zu points were added although every triangle was suitable", sw.c_str(), m.p.size() - g.size()); c.count("suitable_already"); }
    c.count("added_points", (long)(m.p.size() - g.size())); uint64_t h = sw.size(); for (auto& p : g) h = hashd(hashd(h, p.x), p.y); c.mark(h);
}

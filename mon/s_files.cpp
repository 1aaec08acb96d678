// Files: what the library prints (C16) and what it reads back (C17).
#include "scene.h"
#include <unistd.h>
#include <fstream>
#include <iomanip>
#include <memory>

typedef std::vector<std::string> Lines;
static std::string tmpName(const char* base) { return strf("%s_%d.txt", base, (int)getpid()); }
static std::string full(const std::string& n) { return utilities::getPath() + n; }
static std::string slurp(const std::string& n) { std::ifstream f(full(n), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string& n, const std::string& t) { std::ofstream f(full(n), std::ios::binary); f << t; }
struct Removes { std::vector<std::string> v; ~Removes() { for (auto& n : v) unlink(full(n).c_str()); } };

// A plane subdivision made here: a warped grid with cells left out, merged or split, numbered at random.
struct Sub { std::vector<P2> pts; std::vector<std::vector<int>> cells; };
static Sub makeSub(Rng& r, bool triangles, bool big) {
    int m = r.i(1, big ? 14 : 6), n = r.i(1, big ? 14 : 6); double s = std::pow(10.0, r.u(-1, 3)), ox = r.p(0.5) ? 0 : r.u(-1e3, 1e3), oy = r.p(0.5) ? 0 : r.u(-1e3, 1e3);
    bool lattice = r.p(0.3); std::vector<P2> g; 
    for (int j = 0; j <= n; j++) for (int i = 0; i <= m; i++) g.push_back(P2{ox + s * (i + (lattice ? 0 : r.u(-0.2, 0.2))), oy + s * (j + (lattice ? 0 : r.u(-0.2, 0.2)))});
    Sub o; std::vector<int> perm(g.size()); for (size_t k = 0; k < g.size(); k++) perm[k] = (int)k; if (r.p(0.8)) r.shuffle(perm);
    o.pts.resize(g.size()); for (size_t k = 0; k < g.size(); k++) o.pts[perm[k]] = g[k];
    auto id = [&](int i, int j) { return perm[j * (m + 1) + i]; }; double drop = r.p(0.4) ? 0.2 : 0, split = triangles ? 1 : r.p(0.5) ? r.u(0, 0.6) : 0;
    std::vector<std::vector<int>> cells;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        if (r.p(drop)) continue; int a = id(i, j), b = id(i + 1, j), cc = id(i + 1, j + 1), d = id(i, j + 1);
        if (r.p(split)) { if (r.p(0.5)) { cells.push_back({a, b, cc}); cells.push_back({a, cc, d}); } else { cells.push_back({a, b, d}); cells.push_back({b, cc, d}); } }
        else if (!triangles && i + 1 < m && r.p(0.2)) { cells.push_back({a, b, id(i + 2, j), id(i + 2, j + 1), cc, d}); i++; }
        else cells.push_back({a, b, cc, d});
    }
    if (cells.empty()) cells.push_back({id(0, 0), id(1, 0), id(1, 1)});
    if (r.p(0.6)) r.shuffle(cells);
    for (auto& q : cells) { std::rotate(q.begin(), q.begin() + r.i(0, (int)q.size() - 1), q.end()); if (r.p(0.05)) std::reverse(q.begin(), q.end()); }
    o.cells = cells; return o;
}
struct Maps { std::map<std::pair<int, int>, std::pair<int, int>> seg; std::map<int, std::vector<int>> pt; };
static Maps refMaps(const Sub& s) {
    Maps m;
    for (size_t k = 0; k < s.cells.size(); k++) { const std::vector<int>& q = s.cells[k];
        for (size_t i = 0; i < q.size(); i++) { int a = q[i], b = q[(i + 1) % q.size()]; std::pair<int, int> e(std::min(a, b), std::max(a, b)); auto it = m.seg.find(e); if (it == m.seg.end()) m.seg[e] = {(int)k, -1}; else it->second.second = (int)k; m.pt[a].push_back((int)k); } }
    return m;
}
template <class T> std::unique_ptr<Mesh<T>> buildMesh(Rng& r, const Sub& s, SegmentMap*& sm, PointMap*& pm) {
    Maps ref = refMaps(s); sm = new SegmentMap; pm = new PointMap; std::vector<Point> pts; for (auto& p : s.pts) pts.push_back(toPt(p)); std::vector<T> el;
    for (auto& q : s.cells) { std::vector<int> i = q; el.push_back(T(i, pts)); }
    for (auto& e : ref.seg) { IndexSegment k = r.p(0.5) ? IndexSegment(e.first.first, e.first.second) : IndexSegment(e.first.second, e.first.first); sm->insert(k, NeighboursBySegment(e.second.first, e.second.second)); }
    for (auto& e : ref.pt) pm->insert(pts[e.first], e.second);
    if (r.p(0.5)) return std::unique_ptr<Mesh<T>>(new Mesh<T>(pts, el, sm, pm));
    UniqueList<Point> u; u.push_list(pts); return std::unique_ptr<Mesh<T>>(new Mesh<T>(u, el, sm, pm));
}
// a mesh of the library's own
static std::unique_ptr<Mesh<Polygon>> ownMesh(Ctx& c, SegmentMap*& sm, PointMap*& pm) {
    SceneOpts o; o.maxSeeds = 25; o.sep = 3e-2; o.size = std::pow(10.0, c.rng.u(0, 3)); DelynoiConfig::instance()->setTolerance(1e-7 * o.size);
    Scene s = genScene(c.rng, o); c.desc = s.desc; std::vector<Point> seeds; for (auto& p : s.all()) seeds.push_back(toPt(p)); Region reg = s.region();
    TriangleVoronoiGenerator g(seeds, reg); Mesh<Polygon> m = g.getMesh(); sm = m.getSegments(); pm = m.getPointMap(); return std::unique_ptr<Mesh<Polygon>>(new Mesh<Polygon>(m));
}
static std::string fx(double v, int prec) { char b[400]; snprintf(b, sizeof b, "%.*f", prec, v); return b; }
template <class T> Sub contents(Mesh<T>& m) { Sub s; for (auto& p : m.getPoints().getList()) s.pts.push_back(toP2(p)); for (auto& q : m.getPolygons()) s.cells.push_back(q.getPoints()); return s; }
static Maps contents(SegmentMap* sm, PointMap* pm, const std::vector<P2>& pts) {
    Maps m; for (auto& e : sm->getMap()) { int a = e.first.getFirst(), b = e.first.getSecond(); m.seg[{std::min(a, b), std::max(a, b)}] = {e.second.getFirst(), e.second.getSecond()}; }
    int k = 0; for (auto& e : pm->getMap()) { P2 q = toP2(e.first); int best = -1; for (size_t i = 0; i < pts.size(); i++) if (pts[i].x == q.x && pts[i].y == q.y) { best = (int)i; break; } m.pt[best >= 0 ? best : -1000 - k++] = NeighboursByPoint(e.second).getNeighbours(); }
    return m;
}
static bool same(const Maps& a, const Maps& b) { return a.seg == b.seg && a.pt == b.pt; }
static bool samePts(const std::vector<P2>& a, const std::vector<P2>& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (memcmp(&a[k], &b[k], sizeof(P2))) return false; return true; }

// the text of a printed mesh, checked line by line against the mesh; pos is moved past it
static void checkPrinted(Ctx& c, const std::string& text, size_t& pos, const Sub& s, const Maps& ref, int prec, const char* what) {
    auto line = [&]() { size_t e = text.find('\n', pos); c.check(e != std::string::npos, "printed_short", "%s: the file ends early (%zu bytes)", what, text.size()); std::string l = text.substr(pos, e - pos); pos = e + 1; return l; };
    std::string l = line(); c.check(l == strf("%zu", s.pts.size()), "printed_count", "%s: number of points is '%s', not %zu", what, l.c_str(), s.pts.size());
    for (size_t k = 0; k < s.pts.size(); k++) { l = line(); std::string e = fx(s.pts[k].x, prec) + " " + fx(s.pts[k].y, prec); c.check(l == e, "printed_point", "%s: point %zu is '%s', should be '%s' (precision %d)", what, k, l.c_str(), e.c_str(), prec); }
    l = line(); c.check(l == strf("%zu", ref.seg.size()), "printed_count", "%s: number of edges is '%s', not %zu", what, l.c_str(), ref.seg.size());
    std::set<std::pair<int, int>> seen;
    for (size_t k = 0; k < ref.seg.size(); k++) { l = line(); int a, b; char t; int n = sscanf(l.c_str(), "%d %d%c", &a, &b, &t); c.check(n == 2, "printed_edge", "%s: edge line '%s'", what, l.c_str()); std::pair<int, int> e(std::min(a, b), std::max(a, b)); c.check(ref.seg.count(e) && seen.insert(e).second, "printed_edge", "%s: edge '%s' is %s", what, l.c_str(), ref.seg.count(e) ? "listed twice" : "none of the mesh"); c.check(l == strf("%d %d", a, b), "printed_edge", "%s: edge line '%s'", what, l.c_str()); }
    l = line(); c.check(l == strf("%zu", s.cells.size()), "printed_count", "%s: number of elements is '%s', not %zu", what, l.c_str(), s.cells.size());
    for (size_t k = 0; k < s.cells.size(); k++) { l = line(); std::string e = strf("%zu", s.cells[k].size()); for (int i : s.cells[k]) e += strf(" %d", i); c.check(l == e, "printed_element", "%s: element %zu is '%s', should be '%s'", what, k, l.c_str(), e.c_str()); }
}
template <class T> void printCase(Ctx& c, Mesh<T>& m, SegmentMap* sm, PointMap* pm) {
    Rng& r = c.rng; Removes rm; std::string name = tmpName("mesh"); rm.v.push_back(name); DelynoiConfig* cfg = DelynoiConfig::instance();
    Sub s = contents(m); Maps ref = contents(sm, pm, s.pts); uint64_t h = 3; for (auto& p : s.pts) h = hashd(hashd(h, p.x), p.y);
    int rounds = r.i(1, 3);
    for (int k = 0; k < rounds; k++) {
        int prec = cfg->getPrecision(); if (r.p(0.8)) { prec = r.i(0, 14); cfg->setPrecision(prec); } h = hashmix(h, prec);
        int how = r.i(0, 4); size_t pos = 0; std::string pre, post;
        if (how <= 1) { if (r.p(0.3)) spit(name, std::string(r.i(1, 30000), 'x')); m.printInFile(name); c.count("meshes_printed_to_file"); }
        else if (how <= 3) { std::ofstream f(full(name)); int fl = r.i(0, 3); if (fl == 1) f << std::fixed << std::setprecision(2); if (fl == 2) f << std::scientific; if (r.p(0.5)) { pre = "head\n"; f << pre; } m.printInStream(f); if (r.p(0.5)) { post = "tail\n"; f << post; } c.count("meshes_printed_to_stream"); }
        else { Mesh<T> copy(m); copy.printInFile(name); c.count("meshes_printed_to_file"); }
        std::string t = slurp(name); c.check(t.compare(0, pre.size(), pre) == 0, "printed_stream", "what the caller wrote to the stream before is gone"); pos = pre.size();
        checkPrinted(c, t, pos, s, ref, prec, how <= 1 ? "printInFile" : how <= 3 ? "printInStream" : "printInFile of a copy");
        c.check(t.substr(pos) == post, "printed_rest", "%zu bytes after the mesh, %zu expected", t.size() - pos, post.size()); c.count("printed_lines_compared", (long)(3 + s.pts.size() + s.cells.size() + ref.seg.size()));
    }
    Sub now = contents(m); c.check(samePts(now.pts, s.pts) && now.cells == s.cells && same(contents(sm, pm, s.pts), ref), "printing_changed_mesh", "printing the mesh changed it");
    if (r.p(0.4)) {          // the maps on their own
        int prec = cfg->getPrecision(); sm->printInFile(name); Lines l; { std::ifstream f(full(name)); std::string x; while (std::getline(f, x)) l.push_back(x); } c.check(l.size() == ref.seg.size(), "printed_segmentmap", "%zu lines, %zu segments", l.size(), ref.seg.size());
        std::set<std::pair<int, int>> seen; for (auto& x : l) { int a, b, n1, n2; char e; c.check(sscanf(x.c_str(), "%d %d %d %d%c", &a, &b, &n1, &n2, &e) == 4, "printed_segmentmap", "line '%s'", x.c_str()); std::pair<int, int> q(std::min(a, b), std::max(a, b)); auto it = ref.seg.find(q); c.check(it != ref.seg.end() && seen.insert(q).second && it->second == std::make_pair(n1, n2), "printed_segmentmap", "line '%s'", x.c_str()); }
        pm->printInFile(name); l.clear(); { std::ifstream f(full(name)); std::string x; while (std::getline(f, x)) { while (!x.empty() && x.back() == ' ') x.pop_back(); l.push_back(x); } }
        std::multiset<std::string> want; for (auto& e : ref.pt) if (e.first >= 0) { std::string x = fx(s.pts[e.first].x, prec) + " " + fx(s.pts[e.first].y, prec); for (int n : e.second) x += strf(" %d", n); want.insert(x); }
        if (want.size() == ref.pt.size()) c.check(std::multiset<std::string>(l.begin(), l.end()) == want, "printed_pointmap", "the %zu lines printed are not the %zu entries of the map (first '%s')", l.size(), want.size(), l.empty() ? "" : l[0].c_str());
        c.count("maps_printed");
    }
    c.mark(h); if (c.samples.size() < 2) c.samples.push_back(strf("%zu points, %zu edges, %zu elements printed %d times; ", s.pts.size(), ref.seg.size(), s.cells.size(), rounds) + slurp(name).substr(0, 200));
}
SUITE(printing, 0) {
    Rng& r = c.rng; int kind = r.i(0, 99);
    if (kind < 12) {         // strings of the small objects
        DelynoiConfig* cfg = DelynoiConfig::instance(); static const int big[] = {0, 1, 9, 10, 99999, 100000, 999999, 1000000, 1234567, 99999999, 1000000000, 2147483647, -1};
        uint64_t h = 17; for (int k = 0; k < 20; k++) { auto idx = [&]() { return r.p(0.5) ? big[r.i(0, 12)] : (int)(r.next() & 0x7fffffff) >> r.i(0, 30); };
            int a = idx(), b = idx(), prec = r.i(0, 14); cfg->setPrecision(prec); h = hashmix(hashmix(h, a), b);
            std::string g = IndexSegment(a, b).getString(); c.check(g == strf("%d %d", a, b), "string_segment", "'%s' for %d %d", g.c_str(), a, b);
            g = NeighboursBySegment(a, b).getString(); c.check(g == strf("%d %d", a, b), "string_neighbours", "'%s' for %d %d", g.c_str(), a, b);
            g = EdgeData(a, b).getString(); c.check(g == strf("%d %d", a, b), "string_edge", "'%s' for %d %d", g.c_str(), a, b);
            double s = std::pow(10.0, r.u(-8, 9)); P2 p{r.u(-s, s), r.u(-s, s)}, q{r.p(0.2) ? 0.0 : r.i(-1000, 1000), r.p(0.2) ? 0.5 : r.u(-s, s)};
            g = toPt(p).getString(); c.check(g == fx(p.x, prec) + " " + fx(p.y, prec), "string_point", "'%s' for %.17g %.17g, precision %d", g.c_str(), p.x, p.y, prec);
            g = PointSegment(toPt(p), toPt(q)).getString(); c.check(g == fx(p.x, prec) + " " + fx(p.y, prec) + " " + fx(q.x, prec) + " " + fx(q.y, prec), "string_points", "'%s'", g.c_str()); c.count("strings_compared", 5); }
        static std::vector<Point>* lots = nullptr; if (r.p(0.05)) {        // large indexes in an element
            if (!lots) { lots = new std::vector<Point>(1500000, Point(0, 0)); for (int k = 0; k < 1500000; k += 1) (*lots)[k] = Point(k % 1000, k / 1000 + 0.001 * (k % 7)); }
            std::vector<int> i; int base = r.i(999900, 1400000); i = {base, base + 3, base + 2000}; Polygon q(i, *lots); c.check(q.getString() == strf("3 %d %d %d", i[0], i[1], i[2]), "string_element", "'%s'", q.getString().c_str()); c.count("large_index_elements"); }
        c.mark(h); return;
    }
    if (kind < 15) {         // maps of arbitrary neighbours
        DelynoiConfig* cfg = DelynoiConfig::instance(); int prec = r.i(0, 14); cfg->setPrecision(prec); Removes rm; std::string name = tmpName("maps"); rm.v.push_back(name); SegmentMap m; PointMap q; std::map<std::pair<int, int>, std::pair<int, int>> ref; std::map<int, std::vector<int>> pref; int n = r.p(0.1) ? r.i(100, 600) : r.i(0, 30), top = r.p(0.5) ? 20 : 2000000; uint64_t h = prec; std::vector<P2> at;
        for (int k = 0; k < n; k++) { int a = r.i(0, top), b = r.i(0, top), x = r.i(-1, r.p(0.3) ? 1 : top), y = r.p(0.15) ? x : r.i(-1, top); if (a == b) continue; m.insert(IndexSegment(a, b), NeighboursBySegment(x, y)); ref[{std::min(a, b), std::max(a, b)}] = {x, y}; h = hashmix(hashmix(h, a), b); }
        for (int k = 0; k < n; k++) { at.push_back(P2{k % 17 * 1.25 - 3, k / 17 * 0.75 + r.u(0, 0.1)}); std::vector<int> v; for (int z = r.i(0, r.p(0.1) ? 60 : 6); z > 0; z--) v.push_back(r.i(0, top)); Point p = toPt(at[k]); if (v.size() == 1) q.insert(p, v[0]); else q.insert(p, v); pref[k] = v; }
        if (r.p(0.3)) spit(name, std::string(20000, 'z')); m.printInFile(name); std::istringstream in(slurp(name)); std::string l; size_t lines = 0;
        while (std::getline(in, l)) { int a, b, x, y; char e; c.check(sscanf(l.c_str(), "%d %d %d %d%c", &a, &b, &x, &y, &e) == 4 && l == strf("%d %d %d %d", a, b, x, y), "printed_segmentmap", "line '%s'", l.c_str()); auto it = ref.find({std::min(a, b), std::max(a, b)}); c.check(it != ref.end() && it->second == std::make_pair(x, y), "printed_segmentmap", "line '%s', should have neighbours %d %d", l.c_str(), it == ref.end() ? -9 : it->second.first, it == ref.end() ? -9 : it->second.second); lines++; }
        c.check(lines == ref.size(), "printed_segmentmap", "%zu lines, %zu segments", lines, ref.size());
        q.printInFile(name); std::multiset<std::string> want, got; std::istringstream in2(slurp(name)); while (std::getline(in2, l)) { while (!l.empty() && l.back() == ' ') l.pop_back(); got.insert(l); } for (auto& e : pref) { std::string x = fx(at[e.first].x, prec) + " " + fx(at[e.first].y, prec); for (int z : e.second) x += strf(" %d", z); want.insert(x); }
        c.check(got == want, "printed_pointmap", "the %zu lines printed are not the %zu entries", got.size(), want.size()); c.count("maps_printed"); c.mark(h); return;
    }
    SegmentMap* sm; PointMap* pm;
    if (kind < 25) {         // regions
        Removes rm; std::string name = tmpName("region"); rm.v.push_back(name); SceneOpts o; o.maxSeeds = 20; o.size = std::pow(10.0, r.u(0, 3)); DelynoiConfig::instance()->setTolerance(1e-7 * o.size); Scene s = genScene(r, o); c.desc = s.desc; Region g = s.region(); std::vector<Point> seeds; for (auto& p : s.all()) seeds.push_back(toPt(p)); g.addSeedPoints(seeds);
        int prec = r.i(0, 14); DelynoiConfig::instance()->setPrecision(prec); std::vector<Point> rp = g.getRegionPoints(), sp = g.getSeedPoints(); std::string want = strf("%zu\n", rp.size() + sp.size()); rp.insert(rp.end(), sp.begin(), sp.end()); for (auto& p : rp) want += fx(p.getX(), prec) + " " + fx(p.getY(), prec) + "\n";
        size_t off = 0, total = 0; std::vector<size_t> rings{s.outer.size()}; for (auto& q : g.getHoles()) rings.push_back(q.getPoints().size()); for (size_t n : rings) total += n; std::vector<std::string> segs; for (size_t n : rings) { for (size_t k = 0; k < n; k++) segs.push_back(strf("%zu %zu", off + k, off + (k + 1) % n)); off += n; }
        if (r.p(0.3)) spit(name, std::string(20000, 'y')); g.printInFile(name); std::string t = slurp(name); c.check(t.compare(0, want.size(), want) == 0, "printed_region", "points printed are not the ones of the region: '%s'", t.substr(0, 300).c_str());
        std::istringstream in(t.substr(want.size())); std::string l; std::getline(in, l); c.check(l == strf("%zu", total), "printed_region", "'%s' segments, %zu expected", l.c_str(), total);
        for (size_t k = 0; k < total; k++) { std::getline(in, l); c.check(l == segs[k], "printed_region", "segment %zu is '%s', should be '%s'", k, l.c_str(), segs[k].c_str()); }
        std::getline(in, l); c.check(l == "0" && !std::getline(in, l), "printed_region", "end of the file: '%s'", l.c_str()); c.count("regions_printed");
        {                    // the input of Triangle as a file: vertices, segments, holes
            std::vector<Point> own = g.getRegionPoints(), list = sp; list.insert(list.end(), own.begin(), own.end()); r.shuffle(list); UniqueList<Point> u; u.push_list(list); std::vector<int> at; for (auto& p : own) at.push_back(u.indexOf(p)); bool known = true; for (size_t k = 0; k < own.size(); k++) known = known && at[k] >= 0 && u[at[k]].getX() == own[k].getX() && u[at[k]].getY() == own[k].getY();
            if (known) { TriangleDelaunayGenerator t(sp, g); rm.v.push_back("toTriangle.poly"); t.writeTriangleInputFile(u, g, at); std::string want2 = strf("%d 2 0 0\n", u.size()); for (int k = 0; k < u.size(); k++) want2 += strf("%d ", k) + fx(u[k].getX(), prec) + " " + fx(u[k].getY(), prec) + "\n"; want2 += strf("%zu 0\n", total); std::string got = slurp("toTriangle.poly"); c.check(got.compare(0, want2.size(), want2) == 0, "poly_file", "vertices: '%s'", got.substr(0, 300).c_str()); std::istringstream in2(got.substr(want2.size())); std::set<std::pair<int, int>> es; size_t o2 = 0; for (size_t n : rings) { for (size_t k = 0; k < n; k++) es.insert({at[o2 + k], at[o2 + (k + 1) % n]}); o2 += n; }
                for (size_t k = 0; k < total; k++) { int q, a, b; std::getline(in2, l); c.check(sscanf(l.c_str(), "%d %d %d", &q, &a, &b) == 3 && q == (int)k && l == strf("%d %d %d", q, a, b) && (es.erase({a, b}) || es.erase({b, a})), "poly_file", "segment '%s'", l.c_str()); }
                std::getline(in2, l); std::vector<Hole> hs = g.getHoles(); c.check(l == strf("%zu", hs.size()), "poly_file", "number of holes '%s'", l.c_str()); for (size_t k = 0; k < hs.size(); k++) { std::getline(in2, l); Point ce = hs[k].getCenter(); c.check(l == strf("%zu ", k) + fx(ce.getX(), prec) + " " + fx(ce.getY(), prec), "poly_file", "hole '%s'", l.c_str()); } c.check(!std::getline(in2, l), "poly_file", "more lines"); c.count("poly_files"); } }
        c.mark(s.hash()); return;
    }
    if (kind < 32) { std::unique_ptr<Mesh<Polygon>> m = ownMesh(c, sm, pm); printCase(c, *m, sm, pm); c.count("generated_meshes_printed"); }
    else if (kind < 60) { Sub s = makeSub(r, true, r.p(0.1)); c.desc = strf("grid of triangles: %zu points %zu cells ", s.pts.size(), s.cells.size()) + ringStr(s.pts); std::unique_ptr<Mesh<Triangle>> m = buildMesh<Triangle>(r, s, sm, pm); printCase(c, *m, sm, pm); }
    else { Sub s = makeSub(r, false, r.p(0.1)); c.desc = strf("grid: %zu points %zu cells ", s.pts.size(), s.cells.size()) + ringStr(s.pts); std::unique_ptr<Mesh<Polygon>> m = buildMesh<Polygon>(r, s, sm, pm); printCase(c, *m, sm, pm); }
    delete sm; delete pm;
}

// ---- reading
static std::string number(Rng& r, double v) { char b[80]; switch (r.i(0, 4)) { case 0: snprintf(b, sizeof b, "%.17g", v); break; case 1: snprintf(b, sizeof b, "%.17e", v); break; case 2: snprintf(b, sizeof b, "%+.17g", v); break; default: snprintf(b, sizeof b, "%.17g", v); } return b; }
// the text of a mesh as a user may write it; dup: some points are listed again (the cells use either)
static std::string writeMesh(Rng& r, const Sub& s, bool edges, int start, bool dup, bool last) {
    std::string sep = std::vector<std::string>{" ", "  ", "\t", " \t "}[r.p(0.6) ? 0 : r.i(0, 3)], eol = r.p(0.2) ? "\r\n" : "\n", lead = r.p(0.1) ? "  " : "", trail = r.p(0.15) ? " " : r.p(0.05) ? "\t" : "", t;
    std::vector<std::vector<int>> at(s.pts.size()); std::vector<int> order; for (size_t k = 0; k < s.pts.size(); k++) { order.push_back((int)k); if (dup && k && r.p(0.15)) order.push_back(r.i(0, (int)k)); }
    t += lead + strf("%zu", order.size()) + trail + eol; for (size_t k = 0; k < order.size(); k++) { at[order[k]].push_back((int)k); t += lead + number(r, s.pts[order[k]].x) + sep + number(r, s.pts[order[k]].y) + trail + eol; }
    auto ix = [&](int p) { return strf("%d", r.pick(at[p]) + start); };
    if (edges) { Maps m = refMaps(s); t += strf("%zu", m.seg.size()) + trail + eol; std::vector<std::pair<int, int>> e; for (auto& q : m.seg) e.push_back(q.first); r.shuffle(e); for (auto& q : e) t += lead + (r.p(0.5) ? ix(q.first) + sep + ix(q.second) : ix(q.second) + sep + ix(q.first)) + trail + eol; }
    t += lead + strf("%zu", s.cells.size()) + trail + eol; for (auto& q : s.cells) { t += lead + strf("%zu", q.size()); for (int i : q) t += sep + ix(i); t += trail + eol; }
    if (last && r.p(0.2)) t.resize(t.size() - eol.size()); return t;
}
template <class T> void checkRead(Ctx& c, Mesh<T>& m, const Sub& want, bool exact, double tol, const char* what) {
    Sub s = contents(m); c.check(s.pts.size() == want.pts.size(), "read_points", "%s: %zu points, %zu in the file", what, s.pts.size(), want.pts.size());
    for (size_t k = 0; k < s.pts.size(); k++) { double e = exact ? 0 : tol; c.check(std::fabs(s.pts[k].x - want.pts[k].x) <= e && std::fabs(s.pts[k].y - want.pts[k].y) <= e, "read_point", "%s: point %zu is %s, in the file %s", what, k, ptStr(s.pts[k]).c_str(), ptStr(want.pts[k]).c_str()); P2 g = toP2(m.getPoint((int)k)); c.check(g.x == s.pts[k].x && g.y == s.pts[k].y, "read_point", "%s: getPoint(%zu)", what, k); c.check(m.getPoints().indexOf(toPt(s.pts[k])) == (int)k, "read_point", "%s: indexOf point %zu", what, k); }
    c.check(s.cells.size() == want.cells.size(), "read_elements", "%s: %zu elements, %zu in the file", what, s.cells.size(), want.cells.size());
    for (size_t k = 0; k < s.cells.size(); k++) { c.check(s.cells[k] == want.cells[k], "read_element", "%s: element %zu is not the one of the file", what, k); Ring q; for (int i : s.cells[k]) q.push_back(s.pts[i]); std::vector<Point> l = m.getPoints().getList(); c.check(std::fabs(std::fabs(m.getPolygon((int)k).getArea(l)) - (double)std::fabs(ringArea(q))) <= 1e-9 * (double)(std::fabs(ringArea(q)) + 1 + std::fabs(q[0].x * q[0].y)), "read_element_area", "%s: area of element %zu is %.17g, should be %.17g", what, k, m.getPolygon((int)k).getArea(l), (double)std::fabs(ringArea(q))); }
    Maps ref = refMaps(want), got = contents(m.getSegments(), m.getPointMap(), s.pts);
    c.check(got.seg.size() == ref.seg.size(), "read_edges", "%s: %zu edges, should be %zu", what, got.seg.size(), ref.seg.size());
    for (auto& e : ref.seg) { auto it = got.seg.find(e.first); c.check(it != got.seg.end(), "read_edges", "%s: edge %d %d is missing", what, e.first.first, e.first.second); std::pair<int, int> g = it->second; if (g.first > g.second) std::swap(g.first, g.second); std::pair<int, int> w = e.second; if (w.first > w.second) std::swap(w.first, w.second); c.check(g == w, "read_edge_neighbours", "%s: edge %d %d has neighbours %d %d, should be %d %d", what, e.first.first, e.first.second, g.first, g.second, w.first, w.second);
        IndexSegment k = c.rng.p(0.5) ? IndexSegment(e.first.first, e.first.second) : IndexSegment(e.first.second, e.first.first); NeighboursBySegment n = m.getNeighbours(k); c.check(n.getFirst() == it->second.first && n.getSecond() == it->second.second, "read_getneighbours", "%s: getNeighbours of %d %d", what, e.first.first, e.first.second); }
    c.check(got.pt.size() == ref.pt.size(), "read_pointmap", "%s: %zu points in the map by point, should be %zu", what, got.pt.size(), ref.pt.size());
    for (auto& e : ref.pt) { auto it = got.pt.find(e.first); c.check(it != got.pt.end(), "read_pointmap", "%s: point %d is missing", what, e.first); std::vector<int> a = it->second, b = e.second; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.check(a == b, "read_pointmap", "%s: elements at point %d are wrong (%zu, should be %zu)", what, e.first, a.size(), b.size()); std::vector<int> g = m.getPointMap()->get(toPt(s.pts[e.first])).getNeighbours(); std::sort(g.begin(), g.end()); c.check(g == b, "read_pointmap_get", "%s: elements at point %d", what, e.first); }
    c.count("edges_compared", (long)ref.seg.size()); c.count("elements_compared", (long)want.cells.size());
}
template <class T> void readCase(Ctx& c, bool tri) {
    Rng& r = c.rng; Removes rm; std::string name = tmpName("in"); rm.v.push_back(name); int n = r.p(0.8) ? 1 : r.i(2, 3); std::vector<Sub> s; std::vector<int> start; std::string t; uint64_t h = n;
    DelynoiConfig::instance()->setTolerance(r.p(0.5) ? 1e-10 : std::pow(10.0, r.u(-9, -3)) );
    std::vector<bool> ed; for (int k = 0; k < n; k++) { s.push_back(makeSub(r, tri, r.p(0.1))); ed.push_back(r.p(0.5)); start.push_back(r.p(0.6) ? r.i(0, 1) : r.i(-5, 100000)); bool dup = r.p(0.3); t += writeMesh(r, s[k], ed[k], start[k], dup, k + 1 == n); for (auto& p : s[k].pts) h = hashd(hashd(h, p.x), p.y); if (dup) c.count("files_with_repeated_points"); c.count(ed[k] ? "files_with_edges" : "files_without_edges"); }
    c.desc = t; spit(name, t);
    std::vector<std::unique_ptr<Mesh<T>>> ms; for (int k = 0; k < n; k++) ms.emplace_back(new Mesh<T>());
    if (n == 1 && r.p(0.7)) { if (r.p(0.2)) { bool thrown = false; try { ms[0]->createFromFile(tmpName("absent"), 0); } catch (std::runtime_error&) { thrown = true; } c.check(thrown, "absent_file", "no runtime_error for a file that is not there"); c.check(ms[0]->getPoints().size() == 0 && ms[0]->getPolygons().empty() && ms[0]->getSegments()->size() == 0 && ms[0]->getPointMap()->size() == 0, "absent_file", "the mesh was changed"); c.count("absent_files"); } ms[0]->createFromFile(name, start[0]); }
    else { std::ifstream f = r.p(0.5) ? utilities::openFile(name) : std::ifstream(full(name)); for (int k = 0; k < n; k++) ms[k]->createFromStream(f, start[k]); }
    for (int k = 0; k < n; k++) checkRead(c, *ms[k], s[k], true, 0, n > 1 ? strf("mesh %d of the stream", k).c_str() : "mesh"); c.count("meshes_read", n); c.count(tri ? "triangle_meshes" : "polygon_meshes");
    if (r.p(0.5)) {          // print what was read, and read that
        int k = r.i(0, n - 1), prec = r.i(4, 15); DelynoiConfig::instance()->setPrecision(prec); std::string n2 = tmpName("again"); rm.v.push_back(n2); ms[k]->printInFile(n2); Mesh<T> again; again.createFromFile(n2, 0); checkRead(c, again, s[k], false, 0.51 * std::pow(10.0, -prec) + 1e-12 * 1e4, "mesh printed and read"); std::string first = slurp(n2); again.printInFile(n2); std::string second = slurp(n2);
        std::vector<std::string> a, b; { std::istringstream x(first), y(second); std::string l; while (std::getline(x, l)) a.push_back(l); while (std::getline(y, l)) b.push_back(l); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        // edges come in the order of a hash table and in either direction: compare the rest
        auto strip = [](std::vector<std::string> v) { std::vector<std::string> o; for (auto& l : v) { int x, y; char e; if (sscanf(l.c_str(), "%d %d%c", &x, &y, &e) == 2 && l.find('.') == std::string::npos) { if (x > y) std::swap(x, y); l = strf("%d %d", x, y); } o.push_back(l); } std::sort(o.begin(), o.end()); return o; };
        c.check(strip(a) == strip(b), "round_trip", "a mesh printed, read and printed again is not the same text"); c.count("round_trips"); }
    for (auto& m : ms) { delete m->getSegments(); delete m->getPointMap(); }
    c.mark(h); if (c.samples.size() < 2) c.samples.push_back(strf("%d mesh(es), start index %d: ", n, start[0]) + t.substr(0, 250));
}
SUITE(reading, 0) {
    Rng& r = c.rng; int kind = r.i(0, 99);
    if (kind < 6) {          // a mesh the library generated, printed and read
        SegmentMap* sm; PointMap* pm; std::unique_ptr<Mesh<Polygon>> m = ownMesh(c, sm, pm); Removes rm; { Sub q = contents(*m); if (ambiguousPoints(q.pts, DelynoiConfig::instance()->getTolerance())) { c.count("skipped_ambiguous"); c.skipped++; return; } } std::string name = tmpName("own"); rm.v.push_back(name); int prec = r.i(10, 15); DelynoiConfig::instance()->setPrecision(prec); m->printInFile(name); Sub s = contents(*m);
        Mesh<Polygon> again; again.createFromFile(name, 0); checkRead(c, again, s, false, 0.51 * std::pow(10.0, -prec) + 1e-11 * 1e3, "generated mesh printed and read"); uint64_t h = 5; for (auto& p : s.pts) h = hashd(hashd(h, p.x), p.y); c.mark(h); c.count("generated_meshes_read"); return;
    }
    if (kind < 10) {         // the words of a line
        static const char* SEP[] = {" ", "  ", "\t", "\r", " \t", "\n"}; int n = r.i(0, 12); std::vector<std::string> w; std::string t = r.p(0.3) ? SEP[r.i(0, 5)] : ""; for (int k = 0; k < n; k++) { std::string x; int q = r.i(1, 9); while (q--) x += (char)r.i(33, 126); w.push_back(x); t += (k ? SEP[r.i(0, 5)] : "") + x; } if (r.p(0.3)) t += SEP[r.i(0, 5)];
        c.desc = t; c.check(utilities::splitBySpaces(t) == w, "split", "the words of '%s'", t.c_str()); c.count("lines_split"); c.mark(hashmix(1, std::hash<std::string>()(t))); return;
    }
    if (kind < 50) readCase<Triangle>(c, true); else readCase<Polygon>(c, false);
}

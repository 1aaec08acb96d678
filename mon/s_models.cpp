// Containers: C14 (list of distinct elements against a model), C15 (edge and point maps against a model).
#include "lib.h"
#include "core.h"

template <class T> struct Ops;
template <> struct Ops<int> {
    static std::vector<int> pool(Rng& r) { std::vector<int> v; int base = r.p(0.3) ? r.i(-1000000000, 1000000000) : 0; bool big = r.p(0.03); int n = big ? r.i(80, 400) : r.i(1, 40); for (int k = 0; k < n; k++) v.push_back(base + (big ? r.i(-1000, 1000) : r.i(-30, 30))); return v; }
    static bool same(int a, int b) { return a == b; }
    static std::string str(int a) { return strf("%d", a); }
    static uint64_t h(int a) { return (uint64_t)(int64_t)a; }
};
template <> struct Ops<double> {
    static std::vector<double> pool(Rng& r) { std::vector<double> v; int n = r.p(0.03) ? r.i(80, 400) : r.i(1, 40); for (int k = 0; k < n; k++) v.push_back(r.p(0.5) ? r.i(-10, 10) * 0.25 : r.u(-1, 1)); return v; }
    static bool same(double a, double b) { return a == b; }
    static std::string str(double a) { return strf("%.17g", a); }
    static uint64_t h(double a) { return hashd(0, a); }
};
template <> struct Ops<Point> {
    // points on a lattice much coarser than the tolerance, disturbed by much less than it
    static std::vector<Point> pool(Rng& r) {
        std::vector<Point> v; bool big = r.p(0.03); int n = big ? r.i(80, 300) : r.i(1, 40); double tol = DelynoiConfig::instance()->getTolerance(); bool noisy = r.p(0.6);
        double step = r.p(0.5) ? 1.0 : 100 * tol;
        for (int k = 0; k < n; k++) {
            double x = step * (big ? r.i(-12, 12) : r.i(-6, 6)), y = step * (big ? r.i(-12, 12) : r.i(-6, 6));
            if (noisy) { x += r.u(-0.2, 0.2) * tol; y += r.u(-0.2, 0.2) * tol; }
            v.push_back(Point(x, y));
        }
        return v;
    }
    static bool same(const Point& a, const Point& b) { double t = DelynoiConfig::instance()->getTolerance(); return std::fabs(a.getX() - b.getX()) < t && std::fabs(a.getY() - b.getY()) < t; }
    static std::string str(const Point& a) { return strf("(%.17g,%.17g)", a.getX(), a.getY()); }
    static uint64_t h(const Point& a) { return hashd(hashd(0, a.getX()), a.getY()); }
};
template <class T> struct Model {
    std::vector<T> v;
    int find(const T& t) const { for (size_t k = 0; k < v.size(); k++) if (Ops<T>::same(v[k], t)) return (int)k; return -1; }
    int add(const T& t) { int k = find(t); if (k >= 0) return k; v.push_back(t); return (int)v.size() - 1; }
    void del(const T& t) { int k = find(t); if (k >= 0) v.erase(v.begin() + k); }
};
template <class T> static bool exact(const T& a, const T& b) { return !(Ops<T>::h(a) != Ops<T>::h(b)); }
template <class T> static void compare(Ctx& c, UniqueList<T>& u, const Model<T>& m, const std::vector<T>& pool, const char* after) {
    c.check(u.size() == (int)m.v.size(), "size", "after %s the list has %d elements, should have %zu", after, u.size(), m.v.size());
    const UniqueList<T>& cu = u;
    std::vector<T> l = cu.getList(); std::vector<T>& lr = u.getList();
    c.check(l.size() == m.v.size() && lr.size() == m.v.size(), "getlist-size", "after %s", after);
    for (size_t k = 0; k < m.v.size(); k++) {
        c.check(exact(l[k], m.v[k]) && exact(lr[k], m.v[k]), "order", "after %s element %zu is %s, should be %s", after, k, Ops<T>::str(l[k]).c_str(), Ops<T>::str(m.v[k]).c_str());
        c.check(exact(u[(int)k], m.v[k]), "element", "after %s element %zu", after, k);
    }
    for (auto& t : pool) {
        int want = m.find(t);
        c.check(u.contains(t) == (want >= 0), "contains", "after %s contains(%s) is %d, should be %d", after, Ops<T>::str(t).c_str(), (int)u.contains(t), want >= 0);
        c.check(u.indexOf(t) == want, "indexof", "after %s indexOf(%s) is %d, should be %d", after, Ops<T>::str(t).c_str(), u.indexOf(t), want);
    }
}
template <class T> static void history(Ctx& c) {
    Rng& r = c.rng;
    std::vector<T> pool = Ops<T>::pool(r);
    struct L { UniqueList<T> u; Model<T> m; };
    std::vector<L> ls(r.i(1, 3));
    int steps = r.i(3, c.thorough ? 120 : 60); uint64_t h = 7; bool moved = false;
    std::string& d = c.desc; d = "pool";
    for (auto& t : pool) { d += " " + Ops<T>::str(t); h = hashmix(h, Ops<T>::h(t)); }
    d += ";";
    if (pool.size() >= 80) { // start with many elements
        std::vector<T> v = pool; r.shuffle(v); d += " [0] push_list"; for (auto& x : v) d += " " + Ops<T>::str(x); std::vector<int> want, got; for (auto& x : v) want.push_back(ls[0].m.add(x)); got = ls[0].u.push_list(v); c.check(got == want, "pushlist-index", "push_list returned other indexes"); c.count("long_lists"); steps = std::min(steps, 25);
    }
    for (int s = 0; s < steps; s++) {
        int which = r.i(0, (int)ls.size() - 1); L& l = ls[which]; T t = r.pick(pool); std::string op; int k = r.i(0, 99);
        if (k < 50) {
            op = "push_back " + Ops<T>::str(t); d += strf(" [%d] ", which) + op;
            int old = l.m.find(t), want = l.m.add(t), got = l.u.push_back(t);
            c.check(got == want, "push-index", "push_back(%s) returned %d, should be %d", Ops<T>::str(t).c_str(), got, want);
            c.count(old >= 0 ? "repeated_pushes" : "new_pushes"); if (old >= 0 && moved) c.count("repeated_after_removal");
        } else if (k < 60) {
            std::vector<T> v; int n = r.i(0, 8); for (int q = 0; q < n; q++) v.push_back(r.pick(pool));
            op = "push_list"; d += strf(" [%d] push_list", which); for (auto& x : v) d += " " + Ops<T>::str(x);
            std::vector<int> want, got; for (auto& x : v) want.push_back(l.m.add(x));
            got = l.u.push_list(v);
            c.check(got == want, "pushlist-index", "push_list returned other indexes"); c.count("push_lists");
        } else if (k < 65) {
            int o = r.i(0, (int)ls.size() - 1); op = "push_list of list"; d += strf(" [%d] push_list [%d]", which, o);
            std::vector<int> want, got; for (auto& x : ls[o].m.v) want.push_back(l.m.add(x));
            got = l.u.push_list(ls[o].u);
            c.check(got == want, "pushlist-index", "push_list of another list returned other indexes"); c.count("push_lists");
        } else if (k < 75) {
            if (l.m.v.empty()) continue;
            op = "pop_front"; d += strf(" [%d] pop_front", which); l.u.pop_front(); l.m.v.erase(l.m.v.begin()); moved = true; c.count("pops");
        } else if (k < 87) {
            op = "delete " + Ops<T>::str(t); d += strf(" [%d] ", which) + op; bool there = l.m.find(t) >= 0;
            l.u.delete_element(t); l.m.del(t); moved = moved || there; c.count(there ? "deletions" : "deletions_of_absent");
        } else if (k < 89) {
            op = "clear"; d += strf(" [%d] clear", which); l.u.clear(); l.m.v.clear(); c.count("clears");
        } else if (k < 93) {
            int o = r.i(0, (int)ls.size() - 1); op = "assign"; d += strf(" [%d] = [%d]", which, o);
            if (r.p(0.5)) { UniqueList<T> copy(ls[o].u); l.u = copy; } else l.u = ls[o].u;
            l.m = ls[o].m; c.count("copies");
        } else if (k < 96) {
            int o = r.i(0, (int)ls.size() - 1);
            bool common = false; for (auto& x : ls[o].m.v) common = common || l.m.find(x) >= 0;
            d += strf(" [%d] common [%d]", which, o);
            c.check(l.u.hasCommonElement(ls[o].u) == common, "common", "hasCommonElement is %d, should be %d", (int)l.u.hasCommonElement(ls[o].u), common); c.count("common_queries"); continue;
        } else {
            int o = r.i(0, (int)ls.size() - 1);
            bool eq = l.m.v.size() == ls[o].m.v.size(); for (size_t q = 0; eq && q < l.m.v.size(); q++) eq = Ops<T>::same(l.m.v[q], ls[o].m.v[q]);
            d += strf(" [%d] == [%d]", which, o);
            c.check((l.u == ls[o].u) == eq, "equal", "== is %d, should be %d", (int)(l.u == ls[o].u), eq); c.count("equality_queries"); continue;
        }
        h = hashmix(h, k * 131 + which);
        for (auto& q : ls) compare(c, q.u, q.m, pool, op.c_str());   // the others must not have changed either
        c.count("operations");
    }
    // appending whatever it is
    L& l = ls[0]; T t = r.pick(pool); int n = (int)l.m.v.size();
    c.check(l.u.force_push_back(t) == n && l.u.size() == n + 1 && exact(l.u[n], t), "force-push", "force_push_back did not append");
    if (l.m.find(t) >= 0) {
        // with an element in it twice, additions still give the place of an equal element, and deletions take one of them away
        std::vector<T> v = l.u.getList(); std::string what = strf(" [0] force_push_back %s", Ops<T>::str(t).c_str());
        int turns = r.i(1, 12), copyAt = r.p(0.4) ? r.i(1, turns) : 0;
        for (int q = turns; q > 0; q--) {
            if (q == copyAt) { what += " copied"; UniqueList<T> z(l.u); if (r.p(0.5)) l.u = z; else { UniqueList<T> y; y = z; l.u.clear(); l.u = y; } c.count("copies_with_repetition"); }
            T x = r.p(0.5) ? r.pick(v.empty() ? pool : v) : r.pick(pool); int there = 0; for (auto& y : v) there += Ops<T>::same(x, y);
            if (r.p(0.6)) {
                what += " push_back " + Ops<T>::str(x); int at = l.u.push_back(x); if (!there) v.push_back(x);
                c.check(l.u.size() == (int)v.size() && at >= 0 && at < (int)v.size() && Ops<T>::same(v[at], x), "push-repeated", "%s:%s returned place %d of %zu", d.c_str(), what.c_str(), at, v.size());
            } else if (there) {
                what += " delete " + Ops<T>::str(x); l.u.delete_element(x); std::vector<T> now = l.u.getList(); bool ok = now.size() + 1 == v.size(); size_t at = 0;
                while (ok && at < now.size() && exact(now[at], v[at])) at++;
                // what was taken out is one of a run of equal elements
                bool was = ok && Ops<T>::same(v[at], x); for (size_t z = at; ok && z < now.size(); z++) ok = exact(now[z], v[z + 1]);
                c.check(ok && was, "delete-repeated", "%s:%s left %zu of %zu elements", d.c_str(), what.c_str(), now.size(), v.size()); v = now;
            }
            for (size_t z = 0; z < v.size(); z++) c.check(exact(l.u[(int)z], v[z]) && l.u.contains(v[z]), "element-repeated", "%s:%s element %zu", d.c_str(), what.c_str(), z);
            c.count("operations_with_repetition");
        }
    }
    c.mark(h);
    if (c.samples.size() < 2) c.samples.push_back(d);
}
SUITE(uniquelist, 0) {
    int k = c.rng.i(0, 9);
    if (k < 4) history<int>(c); else if (k < 6) history<double>(c);
    else { if (c.rng.p(0.3)) DelynoiConfig::instance()->setTolerance(std::pow(10.0, -c.rng.i(2, 9))); history<Point>(c); }
}

static int anyIndex(Rng& r, int kind) {
    switch (kind) {
        case 0: return r.i(0, 12);
        case 1: return r.i(0, 100000);
        case 2: return r.i(0, 2000000000);
        case 3: { int b = r.i(4, 30); return (1 << b) + r.i(-2, 2); }
        default: return r.i(-1, 400);
    }
}
SUITE(segmentmap, 0) {
    Rng& r = c.rng; int kind = r.i(0, 4);
    SegmentMap m; std::map<std::pair<int, int>, std::pair<int, int>> ref; uint64_t h = 3;
    int steps = r.i(5, c.thorough ? 400 : 120); std::vector<std::pair<int, int>> pool; int np = r.i(1, 60);
    for (int k = 0; k < np; k++) { int a = anyIndex(r, kind), b = anyIndex(r, kind); if (a == b) b = a + 1; pool.push_back({a, b}); }
    std::string& d = c.desc;
    auto key = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
    for (int s = 0; s < steps; s++) {
        auto p = r.pick(pool); if (r.p(0.5)) std::swap(p.first, p.second);
        IndexSegment seg(p.first, p.second); auto k = key(p.first, p.second); h = hashmix(hashmix(h, p.first), p.second);
        int op = r.i(0, 9);
        if (op < 6) {
            int n = r.i(0, 1000); d += strf(" insert %d-%d %d", p.first, p.second, n);
            m.insert(seg, n);
            if (!ref.count(k)) ref[k] = {n, -1}; else ref[k].second = n;
            c.count("inserts");
        } else if (op < 8) {
            int a = r.i(-1, 1000), b = r.i(-1, 1000); d += strf(" set %d-%d %d,%d", p.first, p.second, a, b);
            m.insert(seg, NeighboursBySegment(a, b)); ref[k] = {a, b}; c.count("sets");
        } else if (op < 9) {
            if (!ref.count(k)) continue;
            int a = r.i(-1, 1000); d += strf(" change %d-%d %d", p.first, p.second, a);
            if (r.p(0.5)) { m.get(seg).setFirst(a); ref[k].first = a; } else { m.get(seg).setSecond(a); ref[k].second = a; } c.count("changes");
        } else {
            IndexSegment other(p.second, p.first), copy(seg), moved = seg.add(0), assigned; assigned = seg;
            c.check(seg == other && copy == seg && moved == seg && assigned == seg && seg.hash == other.hash && copy.hash == seg.hash && assigned.hash == seg.hash && moved.hash == seg.hash, "segment-hash", "equal segments %d-%d differ in hash or equality", p.first, p.second);
            IndexSegment diff(p.first, p.second + 1); c.check(p.second + 1 == p.first || !(seg == diff), "segment-eq", "different segments are equal");
            continue;
        }
        if (s % 7 == 0 || s == steps - 1) {
            c.check(m.size() == (int)ref.size(), "size", "the map has %d segments, should have %zu", m.size(), ref.size());
            for (auto& q : pool) {
                auto kk = key(q.first, q.second); auto it = ref.find(kk);
                for (int f = 0; f < 2; f++) {
                    IndexSegment g = f ? IndexSegment(q.second, q.first) : IndexSegment(q.first, q.second);
                    c.check(m.containsSegment(g) == (it != ref.end()), "contains", "containsSegment(%d-%d) is %d", g.getFirst(), g.getSecond(), (int)m.containsSegment(g));
                    if (it != ref.end()) { NeighboursBySegment n = m.get(g); c.check(n.getFirst() == it->second.first && n.getSecond() == it->second.second, "get", "segment %d-%d has neighbours %d,%d, should have %d,%d", g.getFirst(), g.getSecond(), n.getFirst(), n.getSecond(), it->second.first, it->second.second); }
                }
            }
            for (auto& kv : m.getMap()) { auto it = ref.find(key(kv.first.getFirst(), kv.first.getSecond())); c.check(it != ref.end() && kv.second == NeighboursBySegment(it->second.first, it->second.second), "entries", "an entry of the map was never inserted"); }
        }
        c.count("operations");
    }
    // an unknown segment has no neighbours
    for (int k = 0; k < 3; k++) { int a = anyIndex(r, kind), b = a + 1 + r.i(0, 5); if (ref.count(key(a, b))) continue; NeighboursBySegment n = m.get(IndexSegment(a, b)); c.check(n.getFirst() == -1 && n.getSecond() == -1, "unknown", "unknown segment %d-%d has neighbours %d,%d", a, b, n.getFirst(), n.getSecond()); ref[key(a, b)] = {-1, -1}; }
    // neighbours as values
    for (int k = 0; k < 4; k++) {
        int a = r.i(-1, 5), b = r.i(-1, 5), x = r.i(-1, 5), y = r.i(-1, 5); NeighboursBySegment p(a, b), q(Pair<int>(x, y));
        c.check((p == q) == ((a == x && b == y) || (a == y && b == x)), "neighbours-eq", "neighbours %d,%d and %d,%d", a, b, x, y);
        NeighboursBySegment one(a); c.check(one.getFirst() == a && one.getSecond() == -1, "neighbours-one", "one neighbour"); one.setNeighbour(b); c.check(one.getFirst() == a && one.getSecond() == b, "neighbours-second", "second neighbour");
        EdgeData e(a, b), f(x, y); c.check((e == f) == ((a == x && b == y) || (a == y && b == x)), "edge-eq", "edges %d,%d and %d,%d", a, b, x, y);
        c.check(e.t1 == -1 && e.t2 == -1, "edge-new", "a new edge has triangles"); int t = r.i(0, 99), u = r.i(0, 99); e.setTriangle(t); c.check(e.t1 == t && e.t2 == -1, "edge-first", "first triangle"); e.setTriangle(u); c.check(e.t1 == t && e.t2 == u, "edge-second", "second triangle");
        Key ka(a, b), kb(x, y); c.check((ka == kb) == ((a == x && b == y) || (a == y && b == x)), "key-eq", "keys"); if (ka == kb) c.check(KeyHasher()(ka) == KeyHasher()(kb), "key-hash", "equal keys hash differently");
        Pair<int> pa(a, b), pb(x, y); c.check((pa == pb) == (a == x && b == y), "pair-eq", "pairs"); c.check((pa < pb) == (std::make_pair(a, b) < std::make_pair(x, y)), "pair-less", "pairs");
        c.check(pa.dot(pb) == a * x + b * y, "pair-dot", "dot"); Pair<int> sum = pa + pb; c.check(sum.first == a + x && sum.second == b + y, "pair-sum", "sum");
        Pair<double> pd(a, b), sc = pd * 2.5; c.check(sc.first == 2.5 * a && sc.second == 2.5 * b, "pair-scale", "scale");
    }
    c.mark(h);
    if (c.samples.size() < 2) c.samples.push_back(d.substr(0, 600));
}
SUITE(pointmap, 0) {
    Rng& r = c.rng;
    if (r.p(0.3)) DelynoiConfig::instance()->setTolerance(std::pow(10.0, -r.i(2, 9)));
    std::vector<Point> pool = Ops<Point>::pool(r);
    PointMap m; std::vector<std::pair<Point, std::vector<int>>> ref; uint64_t h = 5;
    auto find = [&](const Point& p) -> std::vector<int>* { for (auto& q : ref) if (Ops<Point>::same(q.first, p)) return &q.second; return nullptr; };
    int steps = r.i(5, 100); std::string& d = c.desc;
    for (int s = 0; s < steps; s++) {
        Point p = r.pick(pool); h = hashmix(h, Ops<Point>::h(p));
        std::vector<int> n; bool list = r.p(0.3); int cnt = list ? r.i(0, 5) : 1; for (int k = 0; k < cnt; k++) n.push_back(r.i(0, 500));
        d += " insert " + Ops<Point>::str(p); for (int x : n) d += strf(" %d", x);
        if (list) m.insert(p, n); else m.insert(p, n[0]);
        std::vector<int>* e = find(p); if (!e) { ref.push_back({p, {}}); e = &ref.back().second; }
        e->insert(e->end(), n.begin(), n.end());
        c.check(m.size() == (int)ref.size(), "size", "the map has %d points, should have %zu", m.size(), ref.size());
        for (auto& q : pool) { std::vector<int>* w = find(q); if (!w) continue; c.check(m.get(q).getNeighbours() == *w, "get", "point %s: other neighbours", Ops<Point>::str(q).c_str()); }
        c.count("operations");
    }
    c.check((int)m.getMap().size() == (int)ref.size(), "entries", "the lookups changed the map");
    c.check(m.get(Point(12345.5, -777)).getNeighbours().empty(), "unknown", "an unknown point has neighbours");
    std::vector<int> a, b; for (int k = r.i(0, 6); k > 0; k--) a.push_back(r.i(0, 9)); for (int k = r.i(0, 6); k > 0; k--) b.push_back(r.i(0, 9));
    NeighboursByPoint n(a); n.insert(b); n.add(4); std::vector<int> w = a; w.insert(w.end(), b.begin(), b.end()); w.push_back(4);
    c.check(n.getNeighbours() == w, "neighbours-list", "neighbours by point keep what is added, in order");
    c.mark(h);
    if (c.samples.size() < 2) c.samples.push_back(d.substr(0, 600));
}

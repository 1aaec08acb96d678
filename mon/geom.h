// Reference geometry, written independently of the code under test (long double arithmetic).
#ifndef MON_GEOM_H
#define MON_GEOM_H
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>

typedef long double LD;
struct P2 { double x, y; };
typedef std::vector<P2> Ring;

inline LD orient(const P2& a, const P2& b, const P2& c) {
    return ((LD)b.x - a.x) * ((LD)c.y - a.y) - ((LD)b.y - a.y) * ((LD)c.x - a.x);
}
inline LD dist(const P2& a, const P2& b) { return std::sqrt(((LD)a.x - b.x) * ((LD)a.x - b.x) + ((LD)a.y - b.y) * ((LD)a.y - b.y)); }
LD distSeg(const P2& p, const P2& a, const P2& b);
LD ringArea(const Ring& r);                 // signed
LD ringPerimeter(const Ring& r);
void ringCentroid(const Ring& r, LD& cx, LD& cy);
LD ringBoundaryDist(const Ring& r, const P2& p);
bool ringContains(const Ring& r, const P2& p);   // winding number != 0; unreliable within ~1e-12 of the boundary
int ringWinding(const Ring& r, const P2& p);
LD ringDiameter(const Ring& r);
// smallest distance between two non-adjacent edges, and smallest edge; 0 if edges cross
LD segSegDist(const P2& a, const P2& b, const P2& c, const P2& d);
LD ringClearance(const Ring& r);
LD ringRingDist(const Ring& a, const Ring& b);
double ringMinAngle(const Ring& r);              // smallest interior angle in degrees (orientation independent)
bool ringSimple(const Ring& r, LD eps);          // no two non-adjacent edges come within eps, no spike
bool properCross(const P2& a, const P2& b, const P2& c, const P2& d, LD eps);
void bbox(const Ring& r, P2& lo, P2& hi);
bool circumcircle(const P2& a, const P2& b, const P2& c, LD& cx, LD& cy, LD& rad);
std::string ringStr(const Ring& r);
std::string ptStr(const P2& p);

// a domain: outer ring minus disjoint holes strictly inside
struct Domain {
    Ring outer;
    std::vector<Ring> holes;
    LD area() const { LD a = std::fabs(ringArea(outer)); for (auto& h : holes) a -= std::fabs(ringArea(h)); return a; }
    bool inside(const P2& p) const {
        if (!ringContains(outer, p)) return false;
        for (auto& h : holes) if (ringContains(h, p)) return false;
        return true;
    }
    LD boundaryDist(const P2& p) const { LD d = ringBoundaryDist(outer, p); for (auto& h : holes) d = std::min(d, ringBoundaryDist(h, p)); return d; }
    // is the open segment pq free of proper crossings with the boundary?
    bool visible(const P2& p, const P2& q) const;
    // do both points lie within eps of one common boundary edge?
    bool onCommonEdge(const P2& p, const P2& q, LD eps) const;
    size_t edges() const { size_t n = outer.size(); for (auto& h : holes) n += h.size(); return n; }
};
#endif

// Input generators: simple polygons, holes, seed sets.
#ifndef MON_GEN_H
#define MON_GEN_H
#include "core.h"
#include "geom.h"

struct RingOpts {
    double size = 10;          // overall extent
    double minClear = 0.02;    // smallest feature, relative to the extent
    double minAngle = 14;      // smallest interior angle, degrees
    double maxAngle = 181;     // largest interior angle (for convex rings)
    bool collinear = true;     // may contain vertices in the middle of straight edges
    bool snap = true;          // may have coordinates on a lattice
    bool translate = true;
    int maxN = 24;
};
extern const char* RING_KINDS[];
extern const int N_RING_KINDS;
Ring genRing(Rng& r, const RingOpts& o, int kind = -1, std::string* name = nullptr);   // counter-clockwise
// many vertices (up to n), angles of at least minAngle degrees
Ring genBigRing(Rng& r, double size, int n, double minAngle, std::string* name = nullptr);
Ring convexRing(Rng& r, int n, double cx, double cy, double rx, double ry);
// holes strictly inside, pairwise disjoint
Ring genHoleInside(Rng& r, const Domain& d, double minClear, bool convexOnly);
bool randomInside(Rng& r, const Domain& d, double margin, P2& out);
// seeds at least `margin` from the boundary and `sep` from each other
std::vector<P2> genSeeds(Rng& r, const Domain& d, int n, double margin, double sep, int kind, std::string* name = nullptr);
Ring transform(const Ring& in, double s, double dx, double dy);
Ring reversed(const Ring& r);
Ring rotated(const Ring& r, int k);
#endif

// Meshing scenes: a domain with holes inside it and seed points, given both as library and as reference objects.
#ifndef MON_SCENE_H
#define MON_SCENE_H
// scenes of thousands of seeds, where the build is fast enough for them
#ifdef __SANITIZE_ADDRESS__
#define HUGE_SCENES false
#else
#define HUGE_SCENES true
#endif
#include "core.h"
#include "lib.h"
#include "gen.h"

struct HoleSpec { bool circular; P2 c; double r; Ring ring; };   // ring: what the library is given, or the circle's points
struct Scene {
    double size = 10;
    Ring outer;
    Ring given;                 // the outline as the region is given it, if some vertices are repeated in a row
    Ring base; std::vector<HoleSpec> cuts;   // if cut holes shape the outline: what it is before them
    std::vector<HoleSpec> holes;
    Domain dom;
    std::vector<P2> seeds;      // inside the domain
    std::vector<P2> onEdge;     // exactly on the domain's boundary (library and reference agree they are on it)
    std::vector<P2> extra;      // points given as seeds too that change nothing: repeated seeds, vertices of the domain and of its holes
    std::vector<P2> input() const { std::vector<P2> v = all(); v.insert(v.end(), extra.begin(), extra.end()); return v; }
    std::vector<P2> all() const { std::vector<P2> v = seeds; v.insert(v.end(), onEdge.begin(), onEdge.end()); return v; }
    std::string desc;
    uint64_t hash() const;
    Region region() const;      // through the public API: constructor and addHole
};
struct SceneOpts {
    double size = 10;
    int maxSeeds = 60;
    int maxHoles = 3;
    bool edgeSeeds = true;
    double edgeNoise = 0;       // how far from the boundary a seed meant to be on it may be
    bool nonConvexHoles = true;
    double sep = 1e-2;          // relative to size: seed to seed and seed to boundary
    double closeMin = 0;        // smallest distance of the few seeds that are closer to others or to the boundary; 0: none are
    int ringKind = -1;
    double big = 0.02;          // how often: an outline of up to 110 vertices; up to 12 holes
    int minSeeds = 0;
    bool repeats = false;       // outlines with vertices repeated in a row
    bool cuts = true, boxGrid = true;       // outlines cut by holes; seeds from the library's own grid
};
// points whose ordering under the library's tolerance is ambiguous (such inputs are outside the properties)
bool ambiguousPoints(const std::vector<P2>& pts, double tol);
Scene genScene(Rng& r, const SceneOpts& o);
Ring circlePoints(const P2& c, double rad, int n);
#endif

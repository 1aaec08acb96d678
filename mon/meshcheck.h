// Oracles shared by the meshes: subdivision of the domain, and neighbourhood maps against the elements.
#ifndef MON_MESHCHECK_H
#define MON_MESHCHECK_H
#include "scene.h"

struct RMesh {
    std::vector<P2> pts;
    std::vector<bool> flagged;                   // marked as boundary points
    std::vector<std::vector<int>> cells;
    Ring ring(size_t k) const { Ring r; for (int i : cells[k]) r.push_back(pts[i]); return r; }
};
template <class T> RMesh readMesh(Mesh<T>& m) {
    RMesh r;
    std::vector<Point> l = m.getPoints().getList();
    for (auto& p : l) { r.pts.push_back(toP2(p)); r.flagged.push_back(p.isInBoundary()); }
    for (auto& q : m.getPolygons()) r.cells.push_back(q.getPoints());
    return r;
}
typedef std::map<std::pair<int, int>, std::vector<int>> EdgeCells;   // undirected edge -> cells using it
EdgeCells edgeCells(const RMesh& m);
// indices valid, rings simple and counter-clockwise, edges matched, areas add up to the domain's
void checkSubdivision(Ctx& c, const RMesh& m, const Domain& d, double tol, const char* what);
// is the edge (up to tol) along the domain's boundary?
bool alongBoundary(const Domain& d, const P2& a, const P2& b, double tol);
template <class T> void checkNeighbours(Ctx& c, Mesh<T>& m, const RMesh& r, const Domain& d, double tol, const char* what);
void checkMaps(Ctx& c, SegmentMap* sm, PointMap* pm, const RMesh& r, const Domain& d, double tol, const char* what);
#endif

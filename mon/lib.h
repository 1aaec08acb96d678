// The library's public headers, and conversions between its types and the reference ones.
#ifndef MON_LIB_H
#define MON_LIB_H
#include "geom.h"
#include <delynoi/models/basic/Point.h>
#include <delynoi/models/basic/Angle.h>
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/models/Region.h>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/models/polygon/Triangle.h>
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/models/polygon/BoundingBox.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/models/hole/clipper/ClipperWrapper.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/voronoi/TriangleVoronoiGenerator.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <delynoi/voronoi/DelaunayToVoronoi.h>
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
#include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
#include <delynoi/utilities/geometryFunctions.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/convexHull.h>
#include <delynoi/config/DelynoiConfig.h>
#include <utilities/UniqueList.h>
#include <utilities/utilities.h>
#include <utilities/Pair.h>

void lib_reset_config();
inline P2 toP2(const Point& p) { return P2{p.getX(), p.getY()}; }
inline Point toPt(const P2& p) { return Point(p.x, p.y); }
inline std::vector<Point> toPts(const Ring& r) { std::vector<Point> v; for (auto& p : r) v.push_back(Point(p.x, p.y)); return v; }
inline Ring toRing(const std::vector<Point>& v) { Ring r; for (auto& p : v) r.push_back(P2{p.getX(), p.getY()}); return r; }
#endif

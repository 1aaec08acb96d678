// Scenes for triangulations: restricted segments and points outside the domain.
#ifndef MON_DSCENE_H
#define MON_DSCENE_H
#include "meshcheck.h"
struct DScene { Scene s; std::vector<std::pair<P2, P2>> segs; bool crossing = false; std::vector<P2> outside; };
DScene makeScene(Ctx& c, bool segs);
std::vector<Point> seedList(Ctx& c, DScene& o);
std::vector<PointSegment> segList(const DScene& o);
#endif

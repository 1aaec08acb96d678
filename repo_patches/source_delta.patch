From 1b5677c68187e9e5dd6e0f2115138d31ee1cd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 01/37] fix: Point::isValid reported empty points as valid, so
 every centroid was (0,0)

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From d28f9092a2eafffa6963fe2cda2c0235a212b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 02/37] fix: getConformingDelaunayTriangulation returned a
 reference to a local mesh

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From c89d9ca173ee27a07e794323808182684b29610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 03/37] fix: a Delaunay generator asked twice returned the
 first triangulation, whatever was asked

---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 36 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..1ea2246 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..2db1ef0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,14 +7,22 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
+    //Forget the result of any previous call; meshes already handed out keep their own segment map
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->delaunayEdges = new SegmentMap;
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +150,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +189,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From c6f6ebfe6b39fd9f4eda1ab41dd174fdf31ad9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 04/37] fix: restricted segments whose endpoints are not seeds
 were dropped from the triangulation

---
 .../src/voronoi/TriangleDelaunayGenerator.cpp    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 2db1ef0..e4aa181 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -30,6 +30,16 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
+    //The endpoints of a restricted segment do not have to be seeds: they become points of the triangulation
+    std::vector<int> restrictedIndex;
+    for(PointSegment s: restrictedSegments){
+        Point first = s.getFirst();
+        Point second = s.getSecond();
+
+        restrictedIndex.push_back(pointList.push_back(first));
+        restrictedIndex.push_back(pointList.push_back(second));
+    }
+
     in.numberofpoints = pointList.size();
     in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
     in.numberofpointattributes = 1;
@@ -58,10 +68,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     }
 
     for (int j=0; j<restrictedSegments.size(); j++){
-        PointSegment s = restrictedSegments[j];
-
-        in.segmentlist[2*k] = pointList.indexOf(s.getFirst());
-        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());
+        in.segmentlist[2*k] = restrictedIndex[2*j];
+        in.segmentlist[2*k+1] = restrictedIndex[2*j+1];
         k++;
     }
 
-- 
2.43.0


From d5441ddbdd62eb550f82602e8e3f22e9fa114f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 05/37] fix: random_integer_noise was declared with double
 bounds but defined with int ones, so it did not link

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 7aefcc82aadb2e8ebc67185dc8595c2da1f5bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 06/37] fix: asking for one row or one column of seeds
 generated points that are not a number

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From 465b56617908462ff4cab8cf02608a6cea94bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/37] fix: circles got a wrong number of points (or no end)
 unless the discretization grade divides 360

---
 delynoi/src/models/polygon/Circle.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..4a58c2c 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,15 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int steps = config->getDiscretizationGrade();
+    double delta = 360.0 / steps;
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < steps; i++) {
+        double angle = delta*i;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 201f049446cb5d411604ec58f988ae21306e1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 08/37] fix: Region::addSeedPoints discarded the seeds already
 in the region

---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..2c53851 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -90,7 +90,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From 641fa6986f5a69036ec8e90cf49c536d865668fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 09/37] fix: copying a Region lost its seed points

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 2c53851..87360a7 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints.assign(other.seedPoints.begin(), other.seedPoints.end());
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From 577bd309f688e7bc4ba6d549c2601bbf038213f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 10/37] fix: hash32 overflowed signed integers

---
 lib/utilities/src/utilities.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index ab83909..41ced69 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -58,11 +58,12 @@ namespace utilities {
     }
 
     int hash32(int key) {
-        int c2=0x27d4eb2d;
+        //The sum, the shift to the left and the product wrap around, so they are computed on unsigned values
+        unsigned int c2=0x27d4eb2d;
         key = (key ^ 61) ^ (key >> 16);
-        key = key + (key << 3);
+        key = (int) ((unsigned int) key + ((unsigned int) key << 3));
         key = key ^ (key >> 4);
-        key = key * c2;
+        key = (int) ((unsigned int) key * c2);
         key = key ^ (key >> 15);
         return key;
     }
-- 
2.43.0


From efeb1d389df1e61c6ab99b736a1cf9ce2b765e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 11/37] fix: adding a hole overflowed an int when a coordinate
 times the scale exceeds it

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 87360a7..e967e3f 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -44,14 +44,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 202ab9c5ecde2e85e4a609244932501a9410b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 12/37] fix: ClipperWrapper::polyIntersection computed the
 difference of the polygons

---
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index d1db946..2b93ee5 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -15,7 +15,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
     ClipperLib::Clipper clipper;
     clipper.AddPath(region, ClipperLib::ptSubject, true);
     clipper.AddPath(hole, ClipperLib::ptClip, true);
-    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
+    clipper.Execute(ClipperLib::ctIntersection, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
 
     return solution;
 }
-- 
2.43.0


From 988fbe5c1d2ad185416f23a117b31b96bf5f5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 13/37] fix: coordinates were written with six significant
 digits whatever the configured precision

---
 delynoi/src/models/basic/Point.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 0bea35e..3406a5f 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -26,7 +26,10 @@ double Point::getY() const{
 }
 
 std::string Point::getString() const{
-    return utilities::toString<double>(this->getX()) + " " + utilities::toString<double>(this->getY());
+    int precision = DelynoiConfig::instance()->getPrecision();
+
+    return utilities::toStringWithPrecision(this->getX(), precision) + " " +
+           utilities::toStringWithPrecision(this->getY(), precision);
 }
 
 double Point::squareNorm() {
-- 
2.43.0


From 89a37ee00c30c76f6512cef9c49b60fb31e83ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 14/37] fix: indexes from a million up were written rounded, in
 scientific notation

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..b342b97 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -244,10 +244,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From ef39e0dec36f698e388bb108481a3425c8e42686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 15/37] fix: ear clipping took the triangles on reflex vertices
 for ears

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..3b6d6f1 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -14,11 +14,14 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         return ear;
     }
 
+    //The triangle on a reflex vertex is oriented against the polygon, and it is not an ear
+    double polygonArea = geometry_functions::area(points, pointList);
+
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(t.signedArea(points)*polygonArea>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From e8d46f8880831f8e30f6efa5aea450e3bf81e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:18 +0000
Subject: [PATCH 16/37] fix: the triangles of DelaunayTriangulationGenerator
 did not refer to the caller's points

---
 .../DelaunayTriangulationGenerator.cpp         | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..5635962 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -2,9 +2,23 @@
 
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     Region r (p, points);
+    std::vector<int> polyPoints = p.getPoints();
+    std::vector<Point> vertices = p.getPoints(points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    TriangleDelaunayGenerator generator(vertices,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    //The triangulation has its own list of points, so its indexes must be translated to those of the given list
+    std::vector<Triangle> triangles;
+    for(Triangle& t: triangulation.getPolygons()){
+        std::vector<int> trianglePoints;
+
+        for(int v: t.getPoints()){
+            trianglePoints.push_back(polyPoints[utilities::indexOf(vertices, triangulation.getPoint(v))]);
+        }
+
+        triangles.push_back(Triangle(trianglePoints, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


From ca03e9fd45b0df51bb22787c79a6cc93644b7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 17/37] fix: a polygon whose first three points are collinear
 was always reported convex

---
 delynoi/src/models/polygon/Polygon.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index b342b97..38aa422 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -195,14 +195,19 @@ bool Polygon::inEdges(std::vector<Point>& p, Point point) {
 bool Polygon::isConvex(std::vector<Point>& p) {
     int n = (int) this->points.size();
 
-    double determinant = delynoi_utilities::orientation(p[this->points[0]],p[this->points[1]],p[this->points[2]]);
+    double determinant = 0;
 
-    for(int i=1;i<n; i++){
+    for(int i=0;i<n; i++){
         double newResult = delynoi_utilities::orientation(p[this->points[i]],p[this->points[(i+1)%n]],p[this->points[(i+2)%n]]);
 
         if(determinant*newResult<0){
             return false;
         }
+
+        //Collinear points do not tell on which side the polygon turns
+        if(newResult!=0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From 4c9de76d4a58bf66cbd39baea54174d97fe37020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 18/37] fix: constantAlternating displaced the wrong points
 from the third batch on

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From cd654598bf4b95902c730d7b8e0a4b24a75fe7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 19/37] fix: UniqueList::pop_front left the indexes of the
 other elements one too high

---
 lib/utilities/include/utilities/UniqueList.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..e0703d0 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -70,6 +70,10 @@ void UniqueList<T>::pop_front() {
 
     this->list.erase(this->list.begin());
     this->map.erase(elem);
+
+    for(auto& entry: this->map){
+        entry.second--;
+    }
 }
 
 template <class T>
-- 
2.43.0


From 4b56680d00a1411451dc3c2300a6fb46878f1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 20/37] fix: looking up the neighbours of an unknown segment
 gave an uninitialised index

---
 .../include/delynoi/models/neighbourhood/NeighboursBySegment.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
index ddc7c67..8da0638 100644
--- a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
+++ b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
@@ -13,7 +13,7 @@ private:
     /*
      * Indexes of the polygons that contain a segment
      */
-    int n1;
+    int n1 = -1;
     int n2 = -1;
 public:
     /*
-- 
2.43.0


From 92f85d17d8315fdd9e4d023526b620d3397e6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 21/37] fix: Mesh::createFromFile could not read the files that
 Mesh::printInFile writes

---
 delynoi/include/delynoi/models/Mesh.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..b6f4652 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -180,6 +180,23 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::getline(infile, line);
     int numberMeshPolygons = std::atoi(line.c_str());
 
+    //Files written by printInFile have the list of edges (two indexes each) before the polygons. It is skipped, as the
+    //edges are obtained from the polygons
+    std::streampos listStart = infile.tellg();
+    std::getline(infile, line);
+
+    if(utilities::splitBySpaces(line).size()==2){
+        for (int i = 1; i < numberMeshPolygons; ++i) {
+            std::getline(infile, line);
+        }
+
+        std::getline(infile, line);
+        numberMeshPolygons = std::atoi(line.c_str());
+    }else{
+        infile.clear();
+        infile.seekg(listStart);
+    }
+
     for (int i = 0; i < numberMeshPolygons; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
-- 
2.43.0


From 39425fad53fa27174cf89cc29d8d2dc263f8db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 22/37] fix: a mesh read from a file had no neighbourhood by
 point

---
 delynoi/include/delynoi/models/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index b6f4652..172d345 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -214,6 +214,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
         }
+
+        for (int p: newPolygon.getPoints()){
+            this->pointMap->insert(this->points[p], i);
+        }
     }
 }
 
-- 
2.43.0


From 93ccb7c9afa5958270a0653d8212d7ac93a2715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 23/37] fix: reading a mesh with a repeated point shifted the
 indexes of the points after it

---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 172d345..0a7c782 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,12 +169,13 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> pointIndexes;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        pointIndexes.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
@@ -203,7 +204,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            polygonPoints.push_back(pointIndexes[std::atoi(splittedLine[j].c_str()) - startIndex]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
-- 
2.43.0


From e8527797084d0d7078ab4bf931ba8e9e52175364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 24/37] fix: a hole that splits or covers the region was taken
 for one inside it

---
 delynoi/src/models/Region.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index e967e3f..b0d4fd9 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -70,6 +70,18 @@ void Region::addHole(Hole h) {
 
         this->mutate(newPoints);
     }else{
+        //The rings of the difference that are counter clockwise are the parts in which the hole leaves the domain
+        int parts = 0;
+        for(int i=0;i<solution.size();i++){
+            if(ClipperLib::Orientation(solution[i])){
+                parts++;
+            }
+        }
+
+        if(parts!=1){
+            throw std::invalid_argument("Hole splits or covers the domain region");
+        }
+
         //Two cases, hole is completely inside or completely outside, just ignore holes outside
 
         if(Polygon::containsPoint(this->p, h.getCenter())){
-- 
2.43.0


From 044253dc053ebf4f633af1fb84b5faaa2c8f630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 25/37] fix: a circumcenter on the boundary was not marked as a
 boundary node of the Voronoi mesh

---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..49a9917 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -75,6 +75,7 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
             } else{
                 regionCenter.setBoundary();
                 int regionIndex = del.circumcenters.push_back(regionCenter);
+                del.circumcenters[regionIndex].setBoundary();
 
                 cellPoints.push_back(regionIndex);
                 pointMap->insert(del.circumcenters[regionIndex], cellIndex);
@@ -112,7 +113,9 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
         Point middlePoint = IndexSegment(del.edges[edge].p1, del.edges[edge].p2).middlePoint(del.meshPoints);
         middlePoint.setBoundary();
 
+        //A circumcenter can already be in this place, in which case it lies on the boundary too
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
+        del.circumcenters[circumcenterIndex].setBoundary();
 
         return circumcenterIndex;
     }
-- 
2.43.0


From 164876c7101acdca0324d44d740dcab496cfeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 26/37] fix: parallel segments were reported to intersect when
 rounding left a determinant other than zero

---
 delynoi/src/models/basic/Segment.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..04b5b30 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -53,6 +53,12 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    //Parallel segments do not intersect in one point, and their determinant is only zero up to rounding
+    double determinant = -s2_x * s1_y + s1_x * s2_y;
+    if(std::abs(determinant) <= 1e-12 * (std::abs(s2_x * s1_y) + std::abs(s1_x * s2_y))){
+        return false;
+    }
+
     double s, t;
     s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
     t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
-- 
2.43.0


From 574bf1010df31225ebc244cedbe57245ab3c1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 27/37] fix: ear clipping cut triangles without area off
 polygons with points on a line

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index 3b6d6f1..a7b1a59 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -21,7 +21,11 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.signedArea(points)*polygonArea>0){
+        //The orientation is computed on differences of coordinates, so it is zero if the three points are on a line
+        double earArea = delynoi_utilities::orientation(points[pointList[(size+i-1)%size]], points[pointList[i]],
+                                                        points[pointList[(size+i+1)%size]]);
+
+        if(earArea*polygonArea>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From 6431773da3f0d9c9020037093d4654e5c5ddf3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:35 +0000
Subject: [PATCH 28/37] fix: cutting a hole whose edge is nearly horizontal
 could drop one of its corners

---
 delynoi/src/models/hole/clipper/lib/clipper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/hole/clipper/lib/clipper.cpp b/delynoi/src/models/hole/clipper/lib/clipper.cpp
index 177f34e..4a03a48 100644
--- a/delynoi/src/models/hole/clipper/lib/clipper.cpp
+++ b/delynoi/src/models/hole/clipper/lib/clipper.cpp
@@ -1866,7 +1866,7 @@ OutPt* Clipper::AddLocalMinPoly(TEdge *e1, TEdge *e2, const IntPoint &Pt)
         prevE = e->PrevInAEL;
   }
 
-  if (prevE && prevE->OutIdx >= 0)
+  if (prevE && prevE->OutIdx >= 0 && prevE->Top.Y < Pt.Y && e->Top.Y < Pt.Y)
   {
     cInt xPrev = TopX(*prevE, Pt.Y);
     cInt xE = TopX(*e, Pt.Y);
-- 
2.43.0


From c855311f91dc17e3b812cf0c8bc860acc47ae384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 29/37] fix: seeds on the boundary that are not exactly on it
 stopped the meshing

---
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index e4aa181..57cd966 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -55,16 +55,45 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 
     in.pointmarkerlist = (int *)NULL;
 
-    std::vector<IndexSegment> segments;
-    region.getSegments(segments);
+    std::vector<IndexSegment> regionSegments, segments;
+    region.getSegments(regionSegments);
+
+    //A seed on the boundary is hardly ever exactly on it, and what is left between them is smaller than the tolerance:
+    //the segments of the region go through the seeds that lie on them
+    double tolerance = DelynoiConfig::instance()->getTolerance();
+    for(IndexSegment s: regionSegments){
+        int first = regionIndex[s.getFirst()];
+        int last = regionIndex[s.getSecond()];
+        Point start = pointList[first];
+        Point direction = pointList[last] - start;
+        double length = delynoi_utilities::norm(direction);
+        std::map<double, int> inside;
+
+        for(int i=0;i<pointList.size();i++){
+            Point relative = pointList[i] - start;
+            double along = (relative.getX()*direction.getX() + relative.getY()*direction.getY())/length;
+
+            if(i!=first && i!=last && along>0 && along<length &&
+                    std::abs(delynoi_utilities::crossProduct(direction, relative))<tolerance*length){
+                inside[along] = i;
+            }
+        }
+
+        for(auto& p: inside){
+            segments.push_back(IndexSegment(first, p.second));
+            first = p.second;
+        }
+
+        segments.push_back(IndexSegment(first, last));
+    }
 
     in.numberofsegments = (int) (segments.size() + restrictedSegments.size());
     in.segmentlist = (int*)malloc(in.numberofsegments*2*sizeof(int));
     in.segmentmarkerlist = (int*) NULL;
     int k;
     for(k=0;k<segments.size();k++){
-        in.segmentlist[2*k] = regionIndex[segments[k].getFirst()];
-        in.segmentlist[2*k+1] = regionIndex[segments[k].getSecond()];
+        in.segmentlist[2*k] = segments[k].getFirst();
+        in.segmentlist[2*k+1] = segments[k].getSecond();
     }
 
     for (int j=0; j<restrictedSegments.size(); j++){
-- 
2.43.0


From 664859702ed9344d1c6a231355e7e4c542ea36bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:59 +0000
Subject: [PATCH 30/37] fix: hashes of segments and keys overflowed signed
 integers

---
 delynoi/include/delynoi/models/neighbourhood/SegmentMap.h | 2 +-
 delynoi/include/delynoi/voronoi/structures/mapdata.h      | 2 +-
 delynoi/src/models/basic/IndexSegment.cpp                 | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/models/neighbourhood/SegmentMap.h b/delynoi/include/delynoi/models/neighbourhood/SegmentMap.h
index aeb2ef0..f3f6fbd 100644
--- a/delynoi/include/delynoi/models/neighbourhood/SegmentMap.h
+++ b/delynoi/include/delynoi/models/neighbourhood/SegmentMap.h
@@ -13,7 +13,7 @@
  */
 struct NeighboursHasher{
     std::size_t operator()(const NeighboursBySegment &k) const {
-        return utilities::hash32(k.getFirst()) + utilities::hash32(k.getSecond());
+        return (std::size_t) utilities::hash32(k.getFirst()) + utilities::hash32(k.getSecond());
     }
 };
 
diff --git a/delynoi/include/delynoi/voronoi/structures/mapdata.h b/delynoi/include/delynoi/voronoi/structures/mapdata.h
index 150844e..a0e24dd 100644
--- a/delynoi/include/delynoi/voronoi/structures/mapdata.h
+++ b/delynoi/include/delynoi/voronoi/structures/mapdata.h
@@ -15,7 +15,7 @@ struct Key {
     Key(int f, int s){
         first=f;
         second=s;
-        hash=utilities::hash32(first) + utilities::hash32(second);
+        hash=(std::size_t) utilities::hash32(first) + utilities::hash32(second);
     }
 
     bool operator==(const Key &other) const{
diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index d2cd37f..4b38c2e 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -1,14 +1,14 @@
 #include <delynoi/models/basic/IndexSegment.h>
 
 IndexSegment::IndexSegment(int i1, int i2) : Segment<int>(i1, i2) {
-    this->hash = utilities::hash32(i1) + utilities::hash32(i2);
+    this->hash = (std::size_t) utilities::hash32(i1) + utilities::hash32(i2);
 }
 
 IndexSegment::IndexSegment(const IndexSegment &other) {
     this->p1 = other.p1;
     this->p2 = other.p2;
 
-    this->hash = utilities::hash32(this->p1) + utilities::hash32(this->p2);
+    this->hash = (std::size_t) utilities::hash32(this->p1) + utilities::hash32(this->p2);
 }
 
 IndexSegment::IndexSegment() : Segment<int>(){}
-- 
2.43.0


From 89e8fb1289ecb97752689684b1648e81f0b490f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 31/37] fix: deleting a function given by the library was
 undefined behaviour

---
 delynoi/include/delynoi/models/generator/Functor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/include/delynoi/models/generator/Functor.h b/delynoi/include/delynoi/models/generator/Functor.h
index 3386bcc..90e50cb 100644
--- a/delynoi/include/delynoi/models/generator/Functor.h
+++ b/delynoi/include/delynoi/models/generator/Functor.h
@@ -6,6 +6,11 @@
  */
 class Functor {
 public:
+    /*
+     * Destructor. Functions are handed out as pointers to this class
+     */
+    virtual ~Functor() {}
+
     /*
      * Applies the function on a number
      * @param x parameter of the function
-- 
2.43.0


From 02afe069dcc741b1747352679482e33abb8717d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 32/37] fix: adding two expansions read past the end of each in
 the exact predicates

---
 delynoi/include/delynoi/voronoi/lib/triangle.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.c b/delynoi/include/delynoi/voronoi/lib/triangle.c
index 6edbe11..25d6645 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.c
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.c
@@ -4976,19 +4976,19 @@ REAL *h;
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      if (++eindex < elen) enow = e[eindex];
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      if (++findex < flen) fnow = f[findex];
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -4997,10 +4997,10 @@ REAL *h;
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        if (++eindex < elen) enow = e[eindex];
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        if (++findex < flen) fnow = f[findex];
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -5010,7 +5010,7 @@ REAL *h;
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    if (++eindex < elen) enow = e[eindex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -5018,7 +5018,7 @@ REAL *h;
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    if (++findex < flen) fnow = f[findex];
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From 9f789de9d6fdb6f3654fabb753b1985ab7c421f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 33/37] fix: a hole whose centroid is not inside it was not cut
 out of the meshes

---
 delynoi/src/models/hole/PolygonalHole.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/hole/PolygonalHole.cpp b/delynoi/src/models/hole/PolygonalHole.cpp
index 2020647..2bd43f7 100644
--- a/delynoi/src/models/hole/PolygonalHole.cpp
+++ b/delynoi/src/models/hole/PolygonalHole.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/hole/PolygonalHole.h>
+#include <delynoi/triangulation/EarTriangulationGenerator.h>
 
 PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     for(int i=0;i<p.size();i++){
@@ -6,7 +7,18 @@ PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     }
     this->center = this->getCentroid(p);
     Polygon::getSegments(this->segments);
-}
-
 
+    //The center tells where the hole is, so if the centroid is not inside it (as it can happen if the hole is not convex)
+    //the centroid of the biggest triangle of the hole is used
+    if(!Polygon::containsPoint(p, this->center) || Polygon::inEdges(p, this->center)){
+        EarTriangulationGenerator generator;
+        double biggest = 0;
 
+        for(Triangle t: generator.triangulate(*this, p)){
+            if(std::abs(t.getArea(p))>biggest){
+                biggest = std::abs(t.getArea(p));
+                this->center = t.getCentroid(p);
+            }
+        }
+    }
+}
-- 
2.43.0


From 02d5c91ece87700d6f33e7977259b542841fcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 34/37] fix: Polygon::getMaxDistance gave the longest side, not
 the largest distance between two vertices

---
 delynoi/src/models/polygon/Polygon.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 38aa422..4f63177 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -342,15 +342,17 @@ Point Polygon::getAverage(std::vector<Point> &p) {
 
 double Polygon::getMaxDistance(std::vector<Point> &points) {
     int n = this->points.size();
-    double maxEdge = LLONG_MIN;
+    double maxDistance = LLONG_MIN;
 
-    for (int i = 0; i < this->points.size(); ++i) {
-        double distance = IndexSegment(this->points[i], this->points[(i+1)%n]).length(points);
+    for (int i = 0; i < n; ++i) {
+        for (int j = i + 1; j < n; ++j) {
+            double distance = IndexSegment(this->points[i], this->points[j]).length(points);
 
-        if(distance > maxEdge){
-            maxEdge = distance;
+            if(distance > maxDistance){
+                maxDistance = distance;
+            }
         }
     }
 
-    return maxEdge;
+    return maxDistance;
 }
-- 
2.43.0


From 44e5f09714f38a8a364c0cc2edf7856f48f4fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 35/37] fix: collinear of two segments was declared with
 references but defined with values, so it did not link

---
 delynoi/src/utilities/geometryFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/utilities/geometryFunctions.cpp b/delynoi/src/utilities/geometryFunctions.cpp
index 8693474..817ca6f 100644
--- a/delynoi/src/utilities/geometryFunctions.cpp
+++ b/delynoi/src/utilities/geometryFunctions.cpp
@@ -17,7 +17,7 @@ namespace geometry_functions{
         return std::abs(area2(p1,p2,p3))<config->getTolerance();
     }
 
-    bool collinear(PointSegment seg1, PointSegment seg2){
+    bool collinear(PointSegment& seg1, PointSegment& seg2){
         return collinear(seg1.getFirst(), seg1.getSecond(), seg2.getFirst()) &&
                 collinear(seg1.getFirst(), seg1.getSecond(), seg2.getSecond());
     }
-- 
2.43.0


From 3f0d849c98a998de776ad59853aa997a0643d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 36/37] fix: the order of the edges of a large triangulation,
 and of its Voronoi cells, depended on memory addresses

---
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 57cd966..c784fb4 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -133,12 +133,9 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         }
     }
 
+    std::unordered_map<Key, int, KeyHasher> edgeMarkers;
     for(int i=0;i<out.numberofedges;i++) {
-        EdgeData data(out.edgelist[2*i], out.edgelist[2*i+1]);
-        this->edges.push_back(data);
-        edgeMap.insert(std::make_pair(Key(out.edgelist[2*i], out.edgelist[2*i+1]),i));
-        this->points[out.edgelist[2*i]].setEdge(i, out.edgemarkerlist[i]);
-        this->points[out.edgelist[2*i+1]].setEdge(i, out.edgemarkerlist[i]);
+        edgeMarkers[Key(out.edgelist[2*i], out.edgelist[2*i+1])] = out.edgemarkerlist[i];
     }
 
     for(int i=0;i<out.numberoftriangles;i++){
@@ -149,13 +146,21 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         realPoints.push_back(out.trianglelist[3*i+2]);
 
         Triangle triangle (triangle_points, this->meshPoints, this->circumcenters);
-        int i1 = edgeMap[Key(out.trianglelist[3*i], out.trianglelist[3*i+1])];
-        int i2 = edgeMap[Key(out.trianglelist[3*i+1], out.trianglelist[3*i+2])];
-        int i3 = edgeMap[Key(out.trianglelist[3*i+2], out.trianglelist[3*i])];
 
-        this->edges[i1].setTriangle(i);
-        this->edges[i2].setTriangle(i);
-        this->edges[i3].setTriangle(i);
+        //Triangle lists an edge with whichever of its triangles is at the lower address: here it goes with the first one
+        for(int j=0;j<3;j++){
+            Key key(triangle_points[j], triangle_points[(j+1)%3]);
+
+            if(edgeMap.find(key)==edgeMap.end()){
+                int index = (int) this->edges.size();
+                edgeMap.insert(std::make_pair(key, index));
+                this->edges.push_back(EdgeData(triangle_points[j], triangle_points[(j+1)%3]));
+                this->points[triangle_points[j]].setEdge(index, edgeMarkers[key]);
+                this->points[triangle_points[(j+1)%3]].setEdge(index, edgeMarkers[key]);
+            }
+
+            this->edges[edgeMap[key]].setTriangle(i);
+        }
 
         this->triangles.push_back(triangle);
     }
-- 
2.43.0


From b19276386a87595cb7d3b8225ced68f9a2a5fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 37/37] fix: a point whose coordinates were set, as an
 intersection handed out, was still reported as empty

---
 delynoi/src/models/basic/Point.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 3406a5f..77b74b3 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -58,10 +58,12 @@ void Point::setBoundary() {
 
 void Point::setX(double newX) {
     this->x = newX;
+    this->isEmpty = false;
 }
 
 void Point::setY(double newY) {
     this->y = newY;
+    this->isEmpty = false;
 }
 
 bool Point::operator<(const Point &other) const {
-- 
2.43.0


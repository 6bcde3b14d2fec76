From fcc191f53f381753bc66a2721420805e935d237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/33] fix: do not mix second-order points from opposite sides
 in the fast marching update

When the second neighbour examined in a dimension was closer to the front
than the first, the second-order point of the first was still used. The
result then depended on the orientation of the mesh.
---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..1c2c6dd 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -466,6 +466,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Discard any second-order point from the other side.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From b5aa57e5b35284ed8d42b830085612e4b13b519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 02/33] fix: treat nodes at the contour to working precision as
 frozen in the fast marching method

A node with 0 < |phi| <= machine epsilon and no sign change next to it was
not frozen, and was then given the negative root whatever its sign.
---
 src/FastMarchingMethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 1c2c6dd..da20ac2 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -111,7 +111,7 @@ namespace slsm
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
                 // Zero contour passes through node.
-                if (signedDistanceCopy[i] == 0)
+                if (std::abs(signedDistanceCopy[i]) <= doubleEpsilon)
                 {
                     // Mark node as frozen.
                     nodeStatus[i] = FMM_NodeStatus::FROZEN;
-- 
2.43.0


From 2d5253616a0afb402f7937533697e650c0fb7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 03/33] fix: solve from one side when the fast marching
 quadratic has no real root

The update returned whatever value the node already had, so a node could keep
an arbitrary distance that had nothing to do with the zero contour.
---
 src/FastMarchingMethod.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index da20ac2..100886c 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -438,6 +438,9 @@ namespace slsm
 
         double dist1, dist2;
 
+        // Estimate using only the closest of the two dimensions.
+        double oneSided = maxDouble;
+
         // Loop over all dimensions.
         for (unsigned int i=0;i<2;i++)
         {
@@ -499,6 +502,9 @@ namespace slsm
                 a += aa;
                 b -= 2*aa*tp;
                 c += aa*tp*tp;
+
+                dist1 = tp;
+                dist2 = 2.0*oneThird;
             }
             // First order finite difference.
             else if (dist1 < maxDouble)
@@ -506,12 +512,25 @@ namespace slsm
                 a += 1;
                 b -= 2*dist1;
                 c += dist1*dist1;
+
+                dist2 = 1;
+            }
+
+            // Extrapolate away from the zero contour.
+            if (dist1 < maxDouble)
+            {
+                double d = (signedDistanceCopy[node] > doubleEpsilon) ? (dist1 + dist2) : (dist1 - dist2);
+                if (std::abs(d) < std::abs(oneSided)) oneSided = d;
             }
         }
 
         // Update coefficient.
         c -= 1;
 
+        // There is no real solution when the distances in the two dimensions
+        // are too far apart. The zero contour is reached from one side only.
+        if ((oneSided < maxDouble) && ((b*b - 4*a*c) <= 0)) return oneSided;
+
         return solveQuadratic(node, a, b, c);
     }
 
-- 
2.43.0


From 89d68d700a41667572582074a6ffe2998a313ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 04/33] fix: do not write past the end of the heap's entry list

The list of entries keeps popped ones, so pushing again after a pop could
exceed the storage reserved for the list although the heap was not full.
---
 src/Heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..0627cd0 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,14 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // The list also holds entries that have been popped, so it can outgrow the heap.
+        if (listLength == distance.size())
+        {
+            distance.resize(listLength + 1);
+            address.resize(listLength + 1);
+            backPointer.resize(listLength + 1);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From 94285129ecaefbe76a467356f4473923843dad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 05/33] fix: let one fast marching solver be used for more than
 one march

---
 src/FastMarchingMethod.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 100886c..3a5bbb5 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -110,6 +110,9 @@ namespace slsm
             // Make sure node isn't masked.
             if (nodeStatus[i] != FMM_NodeStatus::MASKED)
             {
+                // Clear the status from any previous march.
+                nodeStatus[i] = FMM_NodeStatus::NONE;
+
                 // Zero contour passes through node.
                 if (std::abs(signedDistanceCopy[i]) <= doubleEpsilon)
                 {
@@ -212,6 +215,8 @@ namespace slsm
                 maxHeapSize++;
         }
 
+        // Replace the heap from any previous march.
+        delete heap;
         heap = new Heap(maxHeapSize, isTest);
     }
 
-- 
2.43.0


From e18cd728254b4e443f142ded2fd88a77a179b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 06/33] fix: do not overflow the segment and neighbour lists
 where boundaries touch

---
 src/Boundary.cpp | 22 ++++++++++++++--------
 src/Boundary.h   |  2 +-
 src/Mesh.cpp     |  2 +-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..23b1dde 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -27,6 +27,16 @@
 
 namespace slsm
 {
+    // Add an entry to a lookup list, growing the list when it is full. (More than
+    // two segments meet at a point where separate parts of the boundary touch.)
+    static void append(std::vector<unsigned int>& list, unsigned int& nEntries, unsigned int entry)
+    {
+        if (nEntries < list.size()) list[nEntries] = entry;
+        else list.push_back(entry);
+
+        nEntries++;
+    }
+
     BoundaryPoint::BoundaryPoint() :
         length(0),
         velocity(0),
@@ -889,20 +899,16 @@ namespace slsm
             points[segments[i].end].length += 0.5 * segments[i].length;
 
             // Update point to segment lookup for start point.
-            points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
-            points[segments[i].start].nSegments++;
+            append(points[segments[i].start].segments, points[segments[i].start].nSegments, i);
 
             // Update point to segment lookup for end point.
-            points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
-            points[segments[i].end].nSegments++;
+            append(points[segments[i].end].segments, points[segments[i].end].nSegments, i);
 
             // Update nearest neighbours for the start point.
-            points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
-            points[segments[i].start].nNeighbours++;
+            append(points[segments[i].start].neighbours, points[segments[i].start].nNeighbours, segments[i].end);
 
             // Update nearest neighbours for the end point.
-            points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
-            points[segments[i].end].nNeighbours++;
+            append(points[segments[i].end].neighbours, points[segments[i].end].nNeighbours, segments[i].start);
         }
     }
 }
diff --git a/src/Boundary.h b/src/Boundary.h
index 7e2f770..ea5ca71 100644
--- a/src/Boundary.h
+++ b/src/Boundary.h
@@ -51,7 +51,7 @@ namespace slsm
         bool isDomain;                          //!< Whether the point lies close to the domain boundary.
         bool isFixed;                           //!< Whether the point is fixed.
         unsigned int nSegments;                 //!< The number of boundary segments that a point belongs to.
-        std::vector<unsigned int> segments;     //!< The indices of the two segments to which a point belongs.
+        std::vector<unsigned int> segments;     //!< The indices of the segments to which a point belongs (usually two).
         unsigned int nNeighbours;               //!< The number of neighbouring boundary points.
         std::vector<unsigned int> neighbours;   //!< The indices of the neighbouring points.
         std::vector<double> sensitivities;      //!< Objective and constraint sensitivities.
diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From bee42d093ac3b1a92517013b6427769a3796fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 07/33] fix: normalise interpolated velocities at masked and
 fixed nodes too

---
 src/LevelSet.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..8abe77f 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -785,10 +785,11 @@ namespace slsm
         }
 
         // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        // (Masked and fixed nodes aren't part of the narrow band, but their
+        // velocities are still used when extending to neighbouring nodes.)
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (velocity[i]) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From 893126accb59a415dfe3172363bc1fb33737ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 08/33] fix: clear stale mine flags when the narrow band is
 rebuilt

---
 src/LevelSet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 8abe77f..d49b2d3 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -648,8 +648,9 @@ namespace slsm
         // Loop over all nodes.
         for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            // Flag node as inactive.
+            // Flag node as inactive, and clear any mine from a previous band.
             mesh.nodes[i].isActive = false;
+            mesh.nodes[i].isMine = false;
 
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
-- 
2.43.0


From 76a749eecb4e722f57ecdb0cf451cb28c5f8858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 09/33] fix: do not read uninitialised boundary points in
 elements without a diagonal

---
 src/Boundary.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 23b1dde..72e724f 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -469,6 +469,10 @@ namespace slsm
                         }
                     }
 
+                    // The zero contour only crosses edges between fixed nodes, which
+                    // aren't part of the discretisation.
+                    if (nCut < 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From ca1741869881797bed423cd0a938d7eb4baceabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 10/33] fix: do not truncate the side-of-line test for points
 near a polygon's edge

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index d49b2d3..bd3c3b4 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1334,7 +1334,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From 638182d2a5b87ab7727f87684e3f87e828597473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 11/33] fix: leave a boundary normal at zero, not NaN, where
 the gradient vanishes

---
 src/Boundary.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 72e724f..8ff5745 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -639,6 +639,9 @@ namespace slsm
                 // Absolute gradient.
                 double grad = sqrt(gradX*gradX + gradY*gradY);
 
+                // The direction isn't defined where the gradient vanishes.
+                if (grad == 0) continue;
+
                 // Compute the two normal vector components.
                 double xNormal = gradX / grad;
                 double yNormal = gradY / grad;
@@ -683,7 +686,7 @@ namespace slsm
         // Compute interpolated normal vector.
         for (unsigned int i=0;i<nPoints;i++)
         {
-            if (!points[i].isDomain)
+            if (!points[i].isDomain && weight[i] > 0)
             {
                 points[i].normal.x /= weight[i];
                 points[i].normal.y /= weight[i];
@@ -692,8 +695,12 @@ namespace slsm
                 double norm = sqrt(points[i].normal.x*points[i].normal.x
                             + points[i].normal.y*points[i].normal.y);
 
-                points[i].normal.x /= norm;
-                points[i].normal.y /= norm;
+                // Contributions can cancel, in which case there's no normal.
+                if (norm > 0)
+                {
+                    points[i].normal.x /= norm;
+                    points[i].normal.y /= norm;
+                }
             }
         }
     }
-- 
2.43.0


From 794b7c1291f23d6659dbc604d72472a044ddc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 12/33] fix: count corners on a fixed domain edge towards a cut
 element's area

---
 src/LevelSet.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index bd3c3b4..4ca1784 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1382,10 +1382,11 @@ namespace slsm
                 unsigned int n2 = (i == 0) ? 3 : (i - 1);
                 n2 = element.nodes[n2];
 
-                // Check that node isn't part of a boundary segment, i.e. both of its
-                // neighbours are inside the structure.
-                if ((mesh.nodes[n1].status & NodeStatus::INSIDE) &&
-                    (mesh.nodes[n2].status & NodeStatus::INSIDE))
+                // Check that node is a corner of the structure, i.e. neither of its
+                // neighbours are outside. (Edges between nodes on a fixed domain
+                // boundary have no segment, so don't add the node themselves.)
+                if (!(mesh.nodes[n1].status & NodeStatus::OUTSIDE) &&
+                    !(mesh.nodes[n2].status & NodeStatus::OUTSIDE))
                 {
                     // Add coordinates to vertex array.
                     vertices[nVertices].x = mesh.nodes[node].coord.x;
-- 
2.43.0


From 31c0e333db6e8fbf393a575a03b2ce3f409f8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 13/33] fix: join the boundary to match the element status when
 an ambiguous element averages zero

---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 8ff5745..1e6b7f4 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -367,7 +367,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From b1e8546cf6085d053455e2ef857ef42f2dd75c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 14/33] fix: honour the velocity and gradient flags when saving
 a numbered VTK file

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From 88974c9278bdc97cf8c792f75ec3766d176c7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 15/33] fix: reject level set files that do not hold exactly
 one valid entry per node

---
 src/InputOutput.cpp | 48 ++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..1556f2f 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -16,6 +16,7 @@
 */
 
 #include <fstream>
+#include <sstream>
 
 #include "Boundary.h"
 #include "Debug.h"
@@ -203,6 +204,10 @@ namespace slsm
         std::string line;
         std::ifstream inputFile(fileName.c_str());
 
+        // The number of columns, and which of them holds the signed distance.
+        const unsigned int nColumns = isXY ? 5 : 3;
+        const unsigned int column = isXY ? 2 : 0;
+
         // Check file is valid.
         errno = ENOENT;
         slsm_check(inputFile.good(), "Cannot open file %s", fileName.c_str());
@@ -218,25 +223,28 @@ namespace slsm
         inputFile.seekg(0, std::ios::beg);
 
         // Read the nodal signed distance fom file.
-
-        // File contains additional nodal coordinate information.
-        if (isXY)
-        {
-            double tmp;
-            unsigned int node = 0;
-
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
-        }
-
-        // File only contains signed distance data.
-        else
+        for (unsigned int i=0;i<levelSet.mesh.nNodes;i++)
         {
-            double tmp;
-            unsigned int node = 0;
-
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
-                node++;
+            std::getline(inputFile, line);
+            std::istringstream values(line);
+
+            std::string token;
+            unsigned int nValues = 0;
+            bool isValid = true;
+
+            while (values >> token)
+            {
+                char* end;
+                double value = strtod(token.c_str(), &end);
+
+                if (*end != '\0') isValid = false;
+                if (nValues == column) levelSet.signedDistance[i] = value;
+                nValues++;
+            }
+
+            // Make sure that every column was read.
+            errno = EINVAL;
+            slsm_check(isValid && (nValues == nColumns), "Invalid data on line %d of input file!", i + 1);
         }
 
         return;
@@ -274,6 +282,10 @@ namespace slsm
         // Read the nodal signed distance fom file.
         inputFile.read((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Make sure that the file holds exactly one value per node.
+        errno = EFBIG;
+        slsm_check(inputFile.good() && (inputFile.peek() == EOF), "Input file contains incorrect number of nodes!");
+
         return;
 
     error:
-- 
2.43.0


From 0fd6b5d1d3e554ce1e636ea87a073a15d05af07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 16/33] fix: report data that could not be written when saving
 a file

---
 src/InputOutput.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 1556f2f..a1a1e7b 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -96,7 +96,9 @@ namespace slsm
                 fprintf(pFile, "%lf\n", levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -138,7 +140,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n", levelSet.signedDistance[i], levelSet.velocity[i], levelSet.gradient[i]);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -174,6 +178,11 @@ namespace slsm
 
         outputFile.write((char*)&levelSet.signedDistance[0], levelSet.mesh.nNodes*sizeof(double));
 
+        // Make sure that all of the data was written.
+        outputFile.close();
+        errno = EIO;
+        slsm_check(outputFile.good(), "Cannot write file %s", fileName.c_str());
+
         return;
 
     error:
@@ -324,7 +333,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf %lf\n",
                 boundary.points[i].coord.x, boundary.points[i].coord.y, boundary.points[i].length);
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -383,7 +394,9 @@ namespace slsm
             fprintf(pFile, "%lf %lf\n\n", x, y);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -436,7 +449,9 @@ namespace slsm
         for (unsigned int i=0;i<mesh.nElements;i++)
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
@@ -477,7 +492,9 @@ namespace slsm
             fprintf(pFile, "%lf\n", mesh.elements[i].area);
         }
 
-        fclose(pFile);
+        // Make sure that all of the data was written.
+        errno = EIO;
+        slsm_check((ferror(pFile) == 0) && (fclose(pFile) == 0), "Cannot write file %s", fileName.c_str());
 
         return;
 
-- 
2.43.0


From a4f848c8f706f07e1c0aa206cb164127aac8fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 17/33] fix: make normal draws after setSeed depend on the seed
 alone

---
 src/MersenneTwister.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..221807b 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,9 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any value that the distribution has in store.
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 64108104b1cdf18786662b14cd2fbf736f56e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 18/33] fix: store optimiser gradients by active variable when
 constraints have been dropped

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 5e636124cbce2ea64fa748f5891c5f32d8947a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 19/33] fix: return optimiser lambdas to the right constraints
 without overrunning the index map

---
 src/Optimise.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..3154785 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -280,17 +280,13 @@ namespace slsm
         // Remap data if there are inactive constraints.
         if (nConstraints < nConstraintsInitial)
         {
-            // Return the lambda vector to its original size.
-            lambdas.resize(1 + nConstraintsInitial);
+            // Copy the lambda values back into position.
+            // Those for inactive constraints are zero.
+            std::vector<double> activeLambdas = lambdas;
+            lambdas.assign(1 + nConstraintsInitial, 0.0);
 
-            // Check for constraints.
-            if (nConstraints > 0)
-            {
-                // Copy the lambda values back into position.
-                // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
-                    lambdas[indexMap[i]] = lambdas[i];
-            }
+            for (unsigned int i=0;i<nConstraints+1;i++)
+                lambdas[indexMap[i]] = activeLambdas[i];
         }
 
         // Return the unscaled objective change.
-- 
2.43.0


From 19cf8d627fd3b1c37c920000c7f78fdfd8249591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 20/33] fix: retry after solver round-off failures and give
 every optimiser call a defined status

---
 src/Optimise.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 3154785..ac5ab60 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -50,7 +50,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(algorithm_)
+                       algorithm(algorithm_),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -97,7 +98,8 @@ namespace slsm
                        maxDisplacement(maxDisplacement_),
                        isMax(isMax_),
                        isEquality(isEquality_),
-                       algorithm(nlopt::LD_SLSQP)
+                       algorithm(nlopt::LD_SLSQP),
+                       returnCode(static_cast<nlopt::result>(0))
     {
         errno = EINVAL;
         slsm_check(((maxDisplacement > 0) && (maxDisplacement_ < 1)), "Move limit must be between 0 and 1.");
@@ -228,15 +230,16 @@ namespace slsm
         }
 
         // The optimum value of the objective function.
-        double optObjective;
+        double optObjective = 0;
 
-        // Whether a single optimisation has been attempted.
-        bool isAttempted = false;
+        // The number of optimisation attempts.
+        unsigned int nAttempts = 0;
 
-        // Keep trying optmisation until a solution is found.
-        while (!isAttempted || (returnCode < 0))
+        // Keep trying optmisation until a solution is found. Give up once the
+        // constraint change targets have become vanishingly small.
+        while ((nAttempts == 0) || ((returnCode == nlopt::ROUNDOFF_LIMITED) && (nAttempts < 100)))
         {
-            isAttempted = true;
+            nAttempts++;
 
             // Attempt optimisation.
             try
@@ -247,6 +250,8 @@ namespace slsm
             // Catch roundoff errors.
             catch (nlopt::roundoff_limited)
             {
+                returnCode = nlopt::ROUNDOFF_LIMITED;
+
                 // Reduce the constraint change targets.
                 for (unsigned int i=0;i<nConstraints;i++)
                     constraintDistancesScaled[i] *= 0.7;
@@ -257,6 +262,7 @@ namespace slsm
             {
                 errno = EINVAL;
                 slsm_log_err("Invalid arguments!");
+                returnCode = nlopt::INVALID_ARGS;
             }
         }
 
-- 
2.43.0


From dc2a808cf12c3388800fa3e88399b2903ac0a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 21/33] fix: restore dropped constraints when an optimiser is
 used for more than one solve

---
 src/Optimise.cpp | 25 ++++++++++++++++++-------
 src/Optimise.h   |  6 ++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index ac5ab60..6faf141 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -71,12 +71,13 @@ namespace slsm
         positiveLambdaLimits.resize(nConstraints + 1);
         scaleFactors.resize(nConstraints + 1);
 
-        // Copy constraint distances.
-        constraintDistancesScaled = constraintDistances;
-
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the initial constraints.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -119,12 +120,13 @@ namespace slsm
         positiveLambdaLimits.resize(nConstraints + 1);
         scaleFactors.resize(nConstraints + 1);
 
-        // Copy constraint distances.
-        constraintDistancesScaled = constraintDistances;
-
         // Set default as inequality constraints.
         if (isEquality.size() == 0) isEquality.resize(nConstraints, false);
 
+        // Store the initial constraints.
+        constraintDistancesInitial = constraintDistances;
+        isEqualityInitial = isEquality;
+
         return;
 
     error:
@@ -151,8 +153,17 @@ namespace slsm
         // This can change between successive optimisation calls.
         nPoints = boundaryPoints.size();
 
+        // Restore constraints that were inactive in a previous optimisation.
+        nConstraints = nConstraintsInitial;
+        constraintDistances = constraintDistancesInitial;
+        constraintDistancesScaled = constraintDistancesInitial;
+        isEquality = isEqualityInitial;
+        negativeLambdaLimits.resize(nConstraints + 1);
+        positiveLambdaLimits.resize(nConstraints + 1);
+        scaleFactors.resize(nConstraints + 1);
+
         // Resize boundary point dependent data structures.
-        displacements.resize(nPoints);
+        displacements.assign(nPoints, 0);
 
         // Initialise the index map.
         indexMap.resize(nConstraints + 1);
diff --git a/src/Optimise.h b/src/Optimise.h
index 692ae39..bcf8a1e 100644
--- a/src/Optimise.h
+++ b/src/Optimise.h
@@ -202,6 +202,12 @@ namespace slsm
         /// Whether the constraints are equality constraints.
         std::vector<bool> isEquality;
 
+        /// The initial distance from each constraint.
+        std::vector<double> constraintDistancesInitial;
+
+        /// Whether each of the initial constraints is an equality.
+        std::vector<bool> isEqualityInitial;
+
         /// The NLopt algorithm.
         nlopt::algorithm algorithm;
 
-- 
2.43.0


From 979f760321ac334ed7bc11ac37e25a7b239e33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 22/33] fix: check the mesh size before allocating the default
 structure's holes

---
 src/LevelSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 4ca1784..75a59f8 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -502,14 +502,18 @@ namespace slsm
         unsigned int nHoles = n1 + n2;
 
         // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
 
         // Check that mesh is large enough.
+        errno = EINVAL;
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // Now that the number of holes is known to be sensible, resize the vector.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From 99457b60ee67511b4ac799710ca972dd7a5c9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 23/33] fix: keep per-node and per-point work arrays off the
 stack

---
 src/Boundary.cpp | 4 ++--
 src/LevelSet.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 1e6b7f4..3ccac2c 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -554,10 +554,10 @@ namespace slsm
     void Boundary::computeNormalVectors(const LevelSet& levelSet)
     {
         // Whether the normal vector at a boundary point has been set.
-        bool isSet[nPoints];
+        std::vector<bool> isSet(nPoints);
 
         // Weighting factor for each point.
-        double weight[nPoints];
+        std::vector<double> weight(nPoints);
 
         // Initialise arrays.
         for (unsigned int i=0;i<nPoints;i++)
diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 75a59f8..72d24bb 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -708,10 +708,10 @@ namespace slsm
         // using inverse squared distance interpolation.
 
         // Whether the velocity at a node has been set.
-        bool isSet[mesh.nNodes];
+        std::vector<bool> isSet(mesh.nNodes);
 
         // Weighting factor for each node.
-        double weight[mesh.nNodes];
+        std::vector<double> weight(mesh.nNodes);
 
         // Initialise arrays.
         for (unsigned int i=0;i<mesh.nNodes;i++)
-- 
2.43.0


From 1a858c5c0b256f4f41370925614379acc96efb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 24/33] fix: recompute constraint change targets from scratch
 when a constraint is dropped

---
 src/Optimise.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index 6faf141..de6723b 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -451,6 +451,10 @@ namespace slsm
             // Flag constraint as active.
             isActive[i] = true;
 
+            // Start from the full constraint change, since a previous pass
+            // (with more active constraints) may have adjusted it.
+            constraintDistancesScaled[i] = constraintDistances[i];
+
             // Vector to hold all possible constraint changes.
             std::vector<double> constraintChanges(nVertices);
 
-- 
2.43.0


From ac5c6105a5abab9b69b854271f419f59689e25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 25/33] fix: bind the container of boundary segments so that
 Python can read it

---
 python/bindings/README.md         | 1 +
 python/bindings/bind_Boundary.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/python/bindings/README.md b/python/bindings/README.md
index 24b561b..d8c0646 100644
--- a/python/bindings/README.md
+++ b/python/bindings/README.md
@@ -73,6 +73,7 @@ pyslsm.VectorInt == std::vector<int>
 pyslsm.VectorUnsignedInt == std::vector<unsigned int>
 
 pyslsm.VectorBoundaryPoint == std::vector<slsm::BoundaryPoint>
+pyslsm.VectorBoundarySegment == std::vector<slsm::BoundarySegment>
 pyslsm.VectorCoord == std::vector<slsm::Coord>
 pyslsm.VectorElement == std::vector<slsm::Element>
 pyslsm.VectorHole == std::vector<slsm::Hole>
diff --git a/python/bindings/bind_Boundary.cpp b/python/bindings/bind_Boundary.cpp
index 3e44078..1c7a119 100644
--- a/python/bindings/bind_Boundary.cpp
+++ b/python/bindings/bind_Boundary.cpp
@@ -25,11 +25,13 @@ namespace py = pybind11;
 using namespace slsm;
 
 PYBIND11_MAKE_OPAQUE(std::vector<BoundaryPoint>)
+PYBIND11_MAKE_OPAQUE(std::vector<BoundarySegment>)
 
 void bind_Boundary(py::module &m)
 {
     // STL containers.
     py::bind_vector<std::vector<BoundaryPoint>>(m, "VectorBoundaryPoint", py::module_local());
+    py::bind_vector<std::vector<BoundarySegment>>(m, "VectorBoundarySegment", py::module_local());
 
     // Class definition.
     py::class_<BoundaryPoint>(m, "BoundaryPoint", py::module_local(),
-- 
2.43.0


From 1beeae2197ff59a26d7c245d9b3f1a34c8133b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:50 +0000
Subject: [PATCH 26/33] fix: don't divide by zero when the sensitivities of a
 function vanish

---
 src/Optimise.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index de6723b..c03b417 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -359,8 +359,8 @@ namespace slsm
                 }
             }
 
-            // Store scale factor.
-            scaleFactors[i] = (1.0 / maxSens);
+            // Store scale factor. (A function with no sensitivities can't be scaled.)
+            scaleFactors[i] = (maxSens > 0) ? (1.0 / maxSens) : 1.0;
         }
 
         // Create lambda vector (all zeros, i.e. at the origin).
@@ -377,7 +377,7 @@ namespace slsm
             computeGradients(gradient, i);
 
             // Scale by diagonal gradient entry (absolute value).
-            scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
+            if (gradient[i] != 0) scaleFactors[i] *= (1.0 / std::abs(gradient[i]));
         }
     }
 
@@ -606,7 +606,7 @@ namespace slsm
             unsigned int k = indexMap[i];
 
             // Initialise max sensitivity.
-            double maxSens = std::numeric_limits<double>::min();
+            double maxSens = 0;
 
             // Loop over all boundary points.
             for (unsigned int j=0;j<boundaryPoints.size();j++)
@@ -622,6 +622,9 @@ namespace slsm
                 }
             }
 
+            // No lambda causes a displacement, so any limits will do.
+            if (maxSens == 0) maxSens = 1;
+
             // Store limits.
             negativeLambdaLimits[i] = -maxDisplacement / maxSens;
             positiveLambdaLimits[i] =  maxDisplacement / maxSens;
-- 
2.43.0


From 6153b63cbe427b30bf918265b1887f56bd60f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:45 +0000
Subject: [PATCH 27/33] fix: bimodal_brolly accepts --umbrella-interval as its
 help documents

---
 demos/bimodal_brolly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 7bad08b..81e91e0 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -728,7 +728,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
             spring = atof(argv[i]);
         }
 
-        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--unmbrella-interval") == 0)
+        else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
             i++;
             umbrellaInterval = atof(argv[i]);
-- 
2.43.0


From 7e293e61bf3caacbfdab493af5e322112d1ceb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:04 +0000
Subject: [PATCH 28/33] fix: bimodal_brolly reports an option that lacks its
 value

---
 demos/bimodal_brolly.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 81e91e0..4510614 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -86,6 +86,9 @@ bool isAccepted(double, double, double, slsm::MersenneTwister&);
 void parseCommandLineArguments(int, char**, double&, double&, double&,
     double&, double&, unsigned int&, unsigned int&, char*, bool&, bool&);
 
+// Move on to the value of a command-line option.
+const char* nextValue(int, char**, int&);
+
 // Print help message to stdout.
 void printHelpMessage();
 
@@ -706,51 +709,43 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
     {
         if (strcmp(argv[i], "-t") == 0 || strcmp(argv[i], "--temperature") == 0)
         {
-            i++;
-            temperature = atof(argv[i]);
+            temperature = atof(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-g") == 0 || strcmp(argv[i], "--gravity") == 0)
         {
-            i++;
-            gravityMult = atof(argv[i]);
+            gravityMult = atof(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-c") == 0 || strcmp(argv[i], "--centre") == 0)
         {
-            i++;
-            centre = atof(argv[i]);
+            centre = atof(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-s") == 0 || strcmp(argv[i], "--spring") == 0)
         {
-            i++;
-            spring = atof(argv[i]);
+            spring = atof(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-ui") == 0 || strcmp(argv[i], "--umbrella-interval") == 0)
         {
-            i++;
-            umbrellaInterval = atof(argv[i]);
+            umbrellaInterval = atof(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-si") == 0 || strcmp(argv[i], "--sample-interval") == 0)
         {
-            i++;
-            sampleInterval = atoi(argv[i]);
+            sampleInterval = atoi(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-n") == 0 || strcmp(argv[i], "--number-samples") == 0)
         {
-            i++;
-            nSamples = atoi(argv[i]);
+            nSamples = atoi(nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-r") == 0 || strcmp(argv[i], "--restart") == 0)
         {
-            i++;
             isRestart = true;
-            strcpy(restart, argv[i]);
+            strcpy(restart, nextValue(argc, argv, i));
         }
 
         else if (strcmp(argv[i], "-b") == 0 || strcmp(argv[i], "--boundary-sample") == 0)
@@ -775,6 +770,19 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
     }
 }
 
+// Move on to the value of a command-line option.
+const char* nextValue(int argc, char** argv, int& i)
+{
+    if (i + 1 >= argc)
+    {
+        fprintf(stderr, "\n[ERROR]: Missing value for command-line option: %s\n", argv[i]);
+        fprintf(stderr, "For help run \"bimodal_brolly -h\"\n");
+        exit(EXIT_FAILURE);
+    }
+
+    return argv[++i];
+}
+
 // Print help message to stdout.
 void printHelpMessage()
 {
-- 
2.43.0


From 277a68e9aac8481b9be2ff2cf614d6d71fc8b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 29/33] fix: bimodal_brolly takes restart file names of any
 length

---
 demos/bimodal_brolly.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 4510614..431eb02 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -84,7 +84,7 @@ bool isAccepted(double, double, double, slsm::MersenneTwister&);
 
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int, char**, double&, double&, double&,
-    double&, double&, unsigned int&, unsigned int&, char*, bool&, bool&);
+    double&, double&, unsigned int&, unsigned int&, std::string&, bool&, bool&);
 
 // Move on to the value of a command-line option.
 const char* nextValue(int, char**, int&);
@@ -142,7 +142,7 @@ int main(int argc, char** argv)
     unsigned int nSamples = 10000;
 
     // File name for the starting configuration.
-    char restart[100];
+    std::string restart;
 
     // Whether a restart file is being used.
     bool isRestart = false;
@@ -164,7 +164,7 @@ int main(int argc, char** argv)
     printf(" sampleInterval    = %d\n", sampleInterval);
     printf(" nSamples          = %d\n", nSamples);
     if (isRestart)
-        printf(" restart       = %s\n", restart);
+        printf(" restart       = %s\n", restart.c_str());
 
     // Inverse temperature.
     double beta = 1.0 / temperature;
@@ -249,8 +249,7 @@ int main(int argc, char** argv)
     // Read binary restart file.
     if (isRestart)
     {
-        std::ostringstream restartFile(restart);
-        io.loadLevelSetBIN(restartFile.str(), levelSet);
+        io.loadLevelSetBIN(restart, levelSet);
     }
 
     // Reinitialise the level set to a signed distance function.
@@ -701,7 +700,7 @@ bool isAccepted(double currentbias, double previousBias, double beta, slsm::Mers
 // Parse arguments from the command-line.
 void parseCommandLineArguments(int argc, char **argv, double& temperature,
     double& gravityMult, double& centre, double& spring, double& umbrellaInterval,
-    unsigned int& sampleInterval, unsigned int& nSamples, char* restart, bool& isRestart, bool& isBoundarySample)
+    unsigned int& sampleInterval, unsigned int& nSamples, std::string& restart, bool& isRestart, bool& isBoundarySample)
 {
     int i = 1;
 
@@ -745,7 +744,7 @@ void parseCommandLineArguments(int argc, char **argv, double& temperature,
         else if (strcmp(argv[i], "-r") == 0 || strcmp(argv[i], "--restart") == 0)
         {
             isRestart = true;
-            strcpy(restart, nextValue(argc, argv, i));
+            restart = nextValue(argc, argv, i);
         }
 
         else if (strcmp(argv[i], "-b") == 0 || strcmp(argv[i], "--boundary-sample") == 0)
-- 
2.43.0


From b2afa4adc0bf241fc67b81b132eff86713f0322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 30/33] fix: bimodal_brolly measures the initial centre of mass
 from the middle of the domain

---
 demos/bimodal_brolly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index 431eb02..cd8fdd5 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -299,6 +299,7 @@ int main(int argc, char** argv)
     // Compute the initial centre of mass.
     double xCentreOfMass, tmp;
     computeCentreOfMass(boundary.points, xCentreOfMass, tmp);
+    xCentreOfMass -= 0.5*width;
 
     // Compute the initial bias potential.
     double biasPotential = computeBiasPotential(xCentreOfMass, centre, spring);
-- 
2.43.0


From 2790192d21f45ce1bd20d0de3211b8b56c4c2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 31/33] fix: dumbbell refuses a configuration that does not
 hold one value per node

---
 demos/dumbbell.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/demos/dumbbell.cpp b/demos/dumbbell.cpp
index ce2d637..21b97e6 100644
--- a/demos/dumbbell.cpp
+++ b/demos/dumbbell.cpp
@@ -143,13 +143,12 @@ int main(int argc, char** argv)
         std::ifstream inputFile(argv[3]);
 
         // Read signed distance from file.
-        if (inputFile.good())
-        {
-            unsigned int i=0;
-            while (inputFile >> levelSet.signedDistance[i])
-                i++;
-        }
-        else
+        unsigned int i=0;
+        while (i < levelSet.mesh.nNodes && inputFile >> levelSet.signedDistance[i])
+            i++;
+
+        // Make sure that the file holds exactly one value per node.
+        if (i < levelSet.mesh.nNodes || !(inputFile >> std::ws).eof())
         {
             std::cout << "Invalid configuration file!\n";
             exit(EXIT_FAILURE);
-- 
2.43.0


From a03e53822065eea6662e8feb97b211dc9604101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 32/33] fix: the demos' mismatch sensitivities only use nodes
 that exist

---
 demos/bimodal.cpp        | 1141 +++++++++++++++++++-------------------
 demos/bimodal_brolly.cpp |    3 +
 demos/dumbbell.cpp       |    3 +
 demos/shape_match.cpp    |    3 +
 4 files changed, 581 insertions(+), 569 deletions(-)

diff --git a/demos/bimodal.cpp b/demos/bimodal.cpp
index dac7ce7..de51b1c 100644
--- a/demos/bimodal.cpp
+++ b/demos/bimodal.cpp
@@ -1,569 +1,572 @@
-/*
-  Copyright (c) 2015-2017 Lester Hedges <lester.hedges+slsm@gmail.com>
-                          Robert Jack   <r.jack@bath.ac.uk>
-
-  This program is free software: you can redistribute it and/or modify
-  it under the terms of the GNU General Public License as published by
-  the Free Software Foundation, either version 3 of the License, or
-  (at your option) any later version.
-
-  This program is distributed in the hope that it will be useful,
-  but WITHOUT ANY WARRANTY; without even the implied warranty of
-  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
-  GNU General Public License for more details.
-
-  You should have received a copy of the GNU General Public License
-  along with this program. If not, see <http://www.gnu.org/licenses/>.
-*/
-
-#include <fstream>
-#include <iomanip>
-#include <iostream>
-
-#include "slsm.h"
-
-#ifndef M_PI
-    #define M_PI 3.1415926535897932384626433832795
-#endif
-
-/*! \file bimodal.cpp
-
-    \brief An example showing perimeter minimisation with a shape matching
-    constraint with a bimodal objective function.
-
-    Here we construct a simple example system with two minima separated by
-    a small free energy barrier. The matched shape is a dumbbell constructed
-    from two horizontally offset, overlapping circles. The position of the
-    right-hand dumbbell lobe is shifted vertically by a small amount relative
-    to the left.
-
-    We construct two minima by making the perimeter (objective) sensitivities
-    a function of the y coordinate of each boundary point, mimicking a
-    gravitational field. Sensitivities are linearly reduced between top and
-    bottom of the left-hand lobe, hence within the left lobe it's possible to
-    form a circle with a smaller perimeter at the same cost.
-
-    When a long trajectory is run the shape explores both minima within
-    the dumbbell, with the time spent in each lobe proportional to the
-    vertical offset between the lobe centres.
-
-    The output file, "bimodal_*.txt", contains the measured x centre of mass,
-    perimeter, mismatch, and centre of mass position vs time data for the
-    optmisation run. Level set information for each sample interval is written
-    to ParaView readable VTK files, "level-set_*.vtk". Boundary segment data
-    is written to "boundary-segments_*.txt".
- */
-
-// FUNCTION PROTOTYPES
-
-// Constraint sensitivity function prototype.
-double computeConstraintSensitivity(const slsm::Coord&, const slsm::LevelSet&);
-
-// Mismatch function prototype.
-double computeMismatch(const slsm::Mesh&, const std::vector<double>&);
-
-// Perimeter function prototype.
-double computePerimeter(const std::vector<slsm::BoundaryPoint>&);
-
-// Boundary point length function prototype.
-double computePointLength(const slsm::BoundaryPoint& point);
-
-// Perimeter weight function prototype.
-double computePerimeterWeight(double y);
-
-// Calculate the "centre of mass" of the boundary".
-void computeCentreOfMass(const std::vector<slsm::BoundaryPoint>&, double&, double&);
-
-// GLOBALS
-unsigned int nDiscrete = 10;                // Boundary integral discretisation factor.
-double uppergravityCutOff;                  // The maximum y coordinate at which gravity is active.
-double lowergravityCutOff;                  // The minimum y coordinate at which gravity is active.
-double gravityRange;                        // The vertical separation between dumbbell lobes.
-double reduce;                              // Sensitivity reduction factor.
-std::vector<slsm::BoundaryPoint>* points;   // Pointer to the boundary points vector.
-
-// MAIN FUNCTION
-
-int main(int argc, char** argv)
-{
-    // Print git commit info, if present.
-    #ifdef COMMIT
-      std::cout << "Git commit: " << COMMIT << "\n";
-    #endif
-
-    // Print git branch info, if present.
-    #ifdef BRANCH
-      std::cout << "Git branch: " << BRANCH << "\n";
-    #endif
-
-    // Maximum displacement per iteration, in units of the mesh spacing.
-    // This is the CFL limit.
-    double moveLimit = 0.05;
-
-    // Default temperature of the thermal bath.
-    double temperature = 0.05;
-
-    // Gravitational multiplier (must be between zero and 1).
-    double gravityMult = 0.02;
-
-    // Override temperature if command-line argument is passed.
-    if (argc > 1) temperature = atof(argv[1]);
-
-    // Override gravity multiplier command-line argument is passed.
-    if (argc > 2) gravityMult = atof(argv[2]);
-
-    // Set maximum running time.
-    double maxTime = 1000000;
-
-    // Set sampling interval.
-    double sampleInterval = 1000;
-
-    // Set time of the next sample (take an early snapshot).
-    double nextSample = 1;
-
-    // Width and height of the mesh.
-    double width  = 70;
-    double height = 60;
-
-    // Hole vectors.
-    std::vector<slsm::Hole> initialHoles;
-    std::vector<slsm::Hole> targetHoles;
-
-    // Create a dumbbell from two horizontally offset holes.
-
-    // Centre the dumbell horizontally and vertically.
-    double xCentre = 0.5*width;
-    double yCentre = 0.5*height;
-
-    // Vertical offset between dumbbell lobes.
-    double yOffset = 1;
-
-    // Horizontal separation of lobe centres is 2.xOffset.
-    double xOffset = 10;
-
-    // Lobe radius.
-    double radius  = 20;
-
-    // Push holes into vectors.
-    targetHoles.push_back(slsm::Hole(xCentre+xOffset, yCentre+yOffset, radius));
-    targetHoles.push_back(slsm::Hole(xCentre-xOffset, yCentre, radius));
-
-    double aa = xOffset / radius;
-    double area = (M_PI/2.0) + asin(aa) + aa*sqrt(1-aa*aa);
-    area *= 2.0 * radius * radius;
-
-    // Set maximumum area mismatch (as fraction of total area).
-    double minSizeOfShape = 0.2 / 3.0;
-    minSizeOfShape *= width*height/area;
-
-    // Set the mismatch constraint.
-    double maxMismatch = area/width/height * (1.0 - minSizeOfShape);
-
-    // Store dumbbell data (needed for sensitivity callback).
-    // They are used for implementing a cutoff for the "gravity".
-    uppergravityCutOff = targetHoles[0].coord.y + radius;
-    lowergravityCutOff = targetHoles[0].coord.y - radius;
-    gravityRange = uppergravityCutOff - lowergravityCutOff;
-
-    /* Physics stuff:
-        The "energy" of a boundary segment is l.g.y where l is length, g is gravity, y is height.
-        The original idea is that g.y=1      at uppergravityCutOff
-                             and  g.y=reduce at lowergravityCutOff
-        with linear interpolation in between
-          hence g.(upper-lower) = 1-reduce
-                g = (1-reduce)/(upper-lower) is the g-field
-          or
-                reduce = 1 - g.(upper-lower), which must be positive
-          hence
-                0 < g < 1/(upper-lower)
-     */
-
-    // The variable gravityMult is g.(upper-lower).
-    reduce = 1.0 - gravityMult;
-
-    // Position and size of the initial trial circle.
-    double initialHoleX = xCentre;
-    double initialHoleY = 0.5*yCentre;
-    double initialHoleRad = 0.5*radius;
-
-    // Push the trial shape into the vector.
-    initialHoles.push_back(slsm::Hole(initialHoleX, initialHoleY, initialHoleRad));
-
-    // Initialise the level set domain.
-    slsm::LevelSet levelSet(width, height, initialHoles, targetHoles, moveLimit, 6, true);
-
-    // Store the mesh area.
-    double meshArea = levelSet.mesh.width * levelSet.mesh.height;
-
-    // Initialise io object.
-    slsm::InputOutput io;
-
-    // Reinitialise the level set to a signed distance function.
-    levelSet.reinitialise();
-
-    // Initialise the boundary object.
-    slsm::Boundary boundary;
-
-    // Initialise boundary points pointer.
-    points = &boundary.points;
-
-    // Initialise target area fraction vector.
-    std::vector<double> targetArea(levelSet.mesh.nElements);
-
-    // Discretise the target structure.
-    boundary.discretise(levelSet, true);
-    io.saveBoundarySegmentsTXT(0, boundary);
-
-    // Compute the element area fractions.
-    levelSet.computeAreaFractions(boundary);
-
-    // Store the target area fractions.
-    for (unsigned int i=0;i<levelSet.mesh.nElements;i++)
-        targetArea[i] = levelSet.mesh.elements[i].area;
-
-    // Perform initial boundary discretisation.
-    boundary.discretise(levelSet);
-
-    // Compute the element area fractions.
-    levelSet.computeAreaFractions(boundary);
-
-    // Compute the initial boundary point normal vectors.
-    boundary.computeNormalVectors(levelSet);
-
-    // Initialise random number generator.
-    slsm::MersenneTwister rng;
-
-    // Number of cycles since signed distance reinitialisation.
-    unsigned int nReinit = 0;
-
-    // Running time.
-    double runningTime = 0;
-
-    // Time measurements.
-    std::vector<double> times;
-
-    // Boundary length measurements (objective).
-    std::vector<double> lengths;
-
-    // Area mismatch measurements (constraint).
-    std::vector<double> mismatches;
-
-    // Centre of mass position measurements.
-    std::vector<double> xPositions;
-    std::vector<double> yPositions;
-
-    /* Lambda values for the optimiser.
-       These are reused, i.e. the solution from the current iteration is
-       used as an estimate for the next, hence we declare the vector
-       outside of the main loop.
-     */
-    std::vector<double> lambdas(2);
-
-    std::cout << "\nStarting bimodal demo...\n\n";
-
-    // Print output header.
-    printf("----------------------------------------------------\n");
-    printf("%9s %9s %10s %10s %10s\n", "Time", "Length", "Mismatch", "xPosition", "yPosition");
-    printf("----------------------------------------------------\n");
-
-    // Integrate until we exceed the maximum time.
-    while (runningTime < maxTime)
-    {
-        // Initialise the sensitivity object.
-        slsm::Sensitivity sensitivity;
-
-        // Initialise the sensitivity callback.
-        using namespace std::placeholders;
-        slsm::SensitivityCallback callback = std::bind(&computePointLength, _1);
-
-        // Assign boundary point sensitivities.
-        for (unsigned int i=0;i<boundary.points.size();i++)
-        {
-            boundary.points[i].sensitivities[0] =
-                sensitivity.computeSensitivity(boundary.points[i], callback);
-            boundary.points[i].sensitivities[1] =
-                computeConstraintSensitivity(boundary.points[i].coord, levelSet);
-        }
-
-        // Apply deterministic Ito correction.
-        sensitivity.itoCorrection(boundary, temperature);
-
-        // Time step associated with the iteration.
-        double timeStep;
-
-        // Constraint distance vector.
-        std::vector<double> constraintDistances;
-
-        // Current area mismatch.
-        double mismatch = computeMismatch(levelSet.mesh, targetArea);
-
-        // Push current distance from constraint violation into vector.
-        constraintDistances.push_back(meshArea*maxMismatch - mismatch);
-
-        // Initialise the optimisation object.
-        slsm::Optimise optimise(boundary.points, constraintDistances,
-            lambdas, timeStep, levelSet.moveLimit);
-
-        // Perform the optimisation.
-        optimise.solve();
-
-        // Extend boundary point velocities to all narrow band nodes.
-        levelSet.computeVelocities(boundary.points, timeStep, temperature, rng);
-
-        // Compute gradient of the signed distance function within the narrow band.
-        levelSet.computeGradients();
-
-        // Update the level set function.
-        bool isReinitialised = levelSet.update(timeStep);
-
-        // Reinitialise the signed distance function, if necessary.
-        if (!isReinitialised)
-        {
-            // Reinitialise at least every 20 iterations.
-            if (nReinit == 20)
-            {
-                levelSet.reinitialise();
-                nReinit = 0;
-            }
-        }
-        else nReinit = 0;
-
-        // Increment the number of steps since reinitialisation.
-        nReinit++;
-
-        // Compute the new discretised boundary.
-        boundary.discretise(levelSet);
-
-        // Compute the element area fractions.
-        levelSet.computeAreaFractions(boundary);
-
-        // Compute the boundary point normal vectors.
-        boundary.computeNormalVectors(levelSet);
-
-        // Increment the time.
-        runningTime += timeStep;
-
-        // Check if the next sample time has been reached.
-        while (runningTime >= nextSample)
-        {
-            // Compute the weighted boundary perimeter.
-            double length = computePerimeter(boundary.points);
-
-            // Compute the centre of mass of the shape.
-            double xPos, yPos;
-            computeCentreOfMass(boundary.points, xPos, yPos);
-
-            // Record the time, length, mismatch area, and positions.
-            times.push_back(runningTime);
-            lengths.push_back(length);
-            mismatches.push_back(mismatch);
-            xPositions.push_back(xPos-(width/2.0));
-            yPositions.push_back(yPos-(width/2.0));
-
-            // Update the time of the next sample.
-            nextSample += sampleInterval;
-
-            // Print statistics.
-            printf("%9.4e %8.4f %10.4f %10.4f %10.4f\n",
-                runningTime, length, mismatch / meshArea, xPos-(width/2.0), yPos-(height/2.0));
-
-            // Write level set and boundary segments to file.
-            io.saveLevelSetVTK(times.size(), levelSet);
-            io.saveBoundarySegmentsTXT(times.size(), boundary);
-        }
-    }
-
-    // Print results to file.
-    FILE *pFile;
-    std::ostringstream fileName, num;
-    num.str("");
-    fileName.str("");
-    num << std::fixed << std::setprecision(4) << temperature;
-    fileName << "bimodal_" << num.str() << ".txt";
-
-    pFile = fopen(fileName.str().c_str(), "w");
-    for (unsigned int i=0;i<times.size();i++)
-    {
-        fprintf(pFile, "%lf %lf %lf %lf %lf\n",
-            times[i] - times[0], lengths[i], mismatches[i] / meshArea, xPositions[i], yPositions[i]);
-    }
-    fclose(pFile);
-
-    std::cout << "\nDone!\n";
-
-    return (EXIT_SUCCESS);
-}
-
-// FUNCTION DEFINITIONS
-
-// Constraint sensitivity function definition.
-double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelSet& levelSet)
-{
-    /* Interpolate nodal signed distance mismatch to a boundary point using
-       inverse squared distance weighting. On length scales larger than a
-       grid spacing we are only concerned with the sign of the mismatch,
-       i.e. the direction that the boundary should move (out or in) in order
-       to reduce the mismatch.
-     */
-
-    // Zero the mismatch.
-    double mismatch = 0;
-
-    // Zero the weighting factor.
-    double weight = 0;
-
-    // Find the node that is cloest to the boundary point.
-    unsigned int node = levelSet.mesh.getClosestNode(coord);
-
-    // Loop over node and all of its neighbours.
-    for (int i=-1;i<4;i++)
-    {
-        // Index of neighbour.
-        unsigned int n;
-
-        // First test the node itself.
-        if (i < 0) n = node;
-
-        // Then its neighbours.
-        else n = levelSet.mesh.nodes[node].neighbours[i];
-
-        // Distance from the boundary point to the node in x & y direction.
-        double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
-        double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
-
-        // Squared distance.
-        double rSqd = dx*dx + dy*dy;
-
-        // If boundary point lies exactly on a node then use the sign of
-        // the mismatch at that node.
-        if (rSqd < 1e-6)
-        {
-            // Calculate nodal mismatch.
-            double m = levelSet.target[n] - levelSet.signedDistance[n];
-
-            // Smooth mismatch over a grid spacing.
-            if (std::abs(m) < 1.0) return m;
-
-            // Return the sign of the mismatch.
-            if (m < 0) return -1.0;
-            else return 1.0;
-        }
-
-        // Otherwise, update the interpolation estimate.
-        else
-        {
-            mismatch += (levelSet.target[n] - levelSet.signedDistance[n]) / rSqd;
-            weight   += 1.0 / rSqd;
-        }
-    }
-
-    // Compute weighted mismatch.
-    mismatch /= weight;
-
-    // Smooth mismatch over a grid spacing.
-    if (std::abs(mismatch) < 1.0) return mismatch;
-
-    // Return the sign of the interpolated mismatch.
-    if (mismatch < 0) return -1.0;
-    else return 1.0;
-}
-
-// Mismatch function definition.
-double computeMismatch(const slsm::Mesh& mesh, const std::vector<double>& targetArea)
-{
-    double areaMismatch = 0;
-
-    // Compute the total absolute area mismatch.
-    for (unsigned int i=0;i<mesh.nElements;i++)
-        areaMismatch += std::abs(targetArea[i] - mesh.elements[i].area);
-
-    return areaMismatch;
-}
-
-// Weighted perimeter function definition.
-double computePerimeter(const std::vector<slsm::BoundaryPoint>& points)
-{
-    double length = 0;
-
-    // Compute the total weighted boundary length.
-    for (unsigned int i=0;i<points.size();i++)
-        length += 0.5*computePointLength(points[i]);
-
-    return length;
-}
-
-// Boundary "centre of mass" function definition.
-void computeCentreOfMass(const std::vector<slsm::BoundaryPoint>& points, double& x, double& y)
-{
-    // Zero variables.
-    double length = 0;
-    x = 0;
-    y = 0;
-
-    // Compute the "centre of mass" of the boundary.
-    for (unsigned int i=0;i<points.size();i++)
-    {
-        // Compute the weighted point length.
-        double ll = computePointLength(points[i]);
-
-        // Update variables.
-        length += 0.5*ll;
-        x += points[i].coord.x * 0.5*ll;
-        y += points[i].coord.y * 0.5*ll;
-    }
-
-    // Normalise.
-    x /= length;
-    y /= length;
-}
-
-// Boundary point length function definition.
-double computePointLength(const slsm::BoundaryPoint& point)
-{
-    double length = 0;
-
-    // Store coordinates of the point.
-    double x1 = point.coord.x;
-    double y1 = point.coord.y;
-
-    // Sum the distance to each neighbour.
-    for (unsigned int i=0;i<point.nNeighbours;i++)
-    {
-        // Store coordinates of the neighbouring point.
-        double x2 = (*points)[point.neighbours[i]].coord.x;
-        double y2 = (*points)[point.neighbours[i]].coord.y;
-
-        // Compute separation components.
-        double dx = x2 - x1;
-        double dy = y2 - y1;
-
-        // Compute segment length.
-        double len = sqrt(dx*dx + dy*dy) / nDiscrete;
-
-        // Perform discrete boundary (line) integral.
-        for (unsigned int j=0;j<nDiscrete;j++)
-        {
-            // Compute y position along segment.
-            double y = y1 + (j+0.5)*dy/nDiscrete;
-
-            // Add weighted segment length.
-            length += computePerimeterWeight(y)*len;
-        }
-    }
-
-    return length;
-}
-
-// Perimeter weight function definition.
-double computePerimeterWeight(double y)
-{
-    if      (y > uppergravityCutOff) return 1.0;
-    else if (y < lowergravityCutOff) return reduce;
-    else
-    {
-        // Fractional distance along the gravity range.
-        double dy = (uppergravityCutOff - y) / gravityRange;
-
-        return (1.0 - dy*(1.0 - reduce));
-    }
-}
+/*
+  Copyright (c) 2015-2017 Lester Hedges <lester.hedges+slsm@gmail.com>
+                          Robert Jack   <r.jack@bath.ac.uk>
+
+  This program is free software: you can redistribute it and/or modify
+  it under the terms of the GNU General Public License as published by
+  the Free Software Foundation, either version 3 of the License, or
+  (at your option) any later version.
+
+  This program is distributed in the hope that it will be useful,
+  but WITHOUT ANY WARRANTY; without even the implied warranty of
+  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the
+  GNU General Public License for more details.
+
+  You should have received a copy of the GNU General Public License
+  along with this program. If not, see <http://www.gnu.org/licenses/>.
+*/
+
+#include <fstream>
+#include <iomanip>
+#include <iostream>
+
+#include "slsm.h"
+
+#ifndef M_PI
+    #define M_PI 3.1415926535897932384626433832795
+#endif
+
+/*! \file bimodal.cpp
+
+    \brief An example showing perimeter minimisation with a shape matching
+    constraint with a bimodal objective function.
+
+    Here we construct a simple example system with two minima separated by
+    a small free energy barrier. The matched shape is a dumbbell constructed
+    from two horizontally offset, overlapping circles. The position of the
+    right-hand dumbbell lobe is shifted vertically by a small amount relative
+    to the left.
+
+    We construct two minima by making the perimeter (objective) sensitivities
+    a function of the y coordinate of each boundary point, mimicking a
+    gravitational field. Sensitivities are linearly reduced between top and
+    bottom of the left-hand lobe, hence within the left lobe it's possible to
+    form a circle with a smaller perimeter at the same cost.
+
+    When a long trajectory is run the shape explores both minima within
+    the dumbbell, with the time spent in each lobe proportional to the
+    vertical offset between the lobe centres.
+
+    The output file, "bimodal_*.txt", contains the measured x centre of mass,
+    perimeter, mismatch, and centre of mass position vs time data for the
+    optmisation run. Level set information for each sample interval is written
+    to ParaView readable VTK files, "level-set_*.vtk". Boundary segment data
+    is written to "boundary-segments_*.txt".
+ */
+
+// FUNCTION PROTOTYPES
+
+// Constraint sensitivity function prototype.
+double computeConstraintSensitivity(const slsm::Coord&, const slsm::LevelSet&);
+
+// Mismatch function prototype.
+double computeMismatch(const slsm::Mesh&, const std::vector<double>&);
+
+// Perimeter function prototype.
+double computePerimeter(const std::vector<slsm::BoundaryPoint>&);
+
+// Boundary point length function prototype.
+double computePointLength(const slsm::BoundaryPoint& point);
+
+// Perimeter weight function prototype.
+double computePerimeterWeight(double y);
+
+// Calculate the "centre of mass" of the boundary".
+void computeCentreOfMass(const std::vector<slsm::BoundaryPoint>&, double&, double&);
+
+// GLOBALS
+unsigned int nDiscrete = 10;                // Boundary integral discretisation factor.
+double uppergravityCutOff;                  // The maximum y coordinate at which gravity is active.
+double lowergravityCutOff;                  // The minimum y coordinate at which gravity is active.
+double gravityRange;                        // The vertical separation between dumbbell lobes.
+double reduce;                              // Sensitivity reduction factor.
+std::vector<slsm::BoundaryPoint>* points;   // Pointer to the boundary points vector.
+
+// MAIN FUNCTION
+
+int main(int argc, char** argv)
+{
+    // Print git commit info, if present.
+    #ifdef COMMIT
+      std::cout << "Git commit: " << COMMIT << "\n";
+    #endif
+
+    // Print git branch info, if present.
+    #ifdef BRANCH
+      std::cout << "Git branch: " << BRANCH << "\n";
+    #endif
+
+    // Maximum displacement per iteration, in units of the mesh spacing.
+    // This is the CFL limit.
+    double moveLimit = 0.05;
+
+    // Default temperature of the thermal bath.
+    double temperature = 0.05;
+
+    // Gravitational multiplier (must be between zero and 1).
+    double gravityMult = 0.02;
+
+    // Override temperature if command-line argument is passed.
+    if (argc > 1) temperature = atof(argv[1]);
+
+    // Override gravity multiplier command-line argument is passed.
+    if (argc > 2) gravityMult = atof(argv[2]);
+
+    // Set maximum running time.
+    double maxTime = 1000000;
+
+    // Set sampling interval.
+    double sampleInterval = 1000;
+
+    // Set time of the next sample (take an early snapshot).
+    double nextSample = 1;
+
+    // Width and height of the mesh.
+    double width  = 70;
+    double height = 60;
+
+    // Hole vectors.
+    std::vector<slsm::Hole> initialHoles;
+    std::vector<slsm::Hole> targetHoles;
+
+    // Create a dumbbell from two horizontally offset holes.
+
+    // Centre the dumbell horizontally and vertically.
+    double xCentre = 0.5*width;
+    double yCentre = 0.5*height;
+
+    // Vertical offset between dumbbell lobes.
+    double yOffset = 1;
+
+    // Horizontal separation of lobe centres is 2.xOffset.
+    double xOffset = 10;
+
+    // Lobe radius.
+    double radius  = 20;
+
+    // Push holes into vectors.
+    targetHoles.push_back(slsm::Hole(xCentre+xOffset, yCentre+yOffset, radius));
+    targetHoles.push_back(slsm::Hole(xCentre-xOffset, yCentre, radius));
+
+    double aa = xOffset / radius;
+    double area = (M_PI/2.0) + asin(aa) + aa*sqrt(1-aa*aa);
+    area *= 2.0 * radius * radius;
+
+    // Set maximumum area mismatch (as fraction of total area).
+    double minSizeOfShape = 0.2 / 3.0;
+    minSizeOfShape *= width*height/area;
+
+    // Set the mismatch constraint.
+    double maxMismatch = area/width/height * (1.0 - minSizeOfShape);
+
+    // Store dumbbell data (needed for sensitivity callback).
+    // They are used for implementing a cutoff for the "gravity".
+    uppergravityCutOff = targetHoles[0].coord.y + radius;
+    lowergravityCutOff = targetHoles[0].coord.y - radius;
+    gravityRange = uppergravityCutOff - lowergravityCutOff;
+
+    /* Physics stuff:
+        The "energy" of a boundary segment is l.g.y where l is length, g is gravity, y is height.
+        The original idea is that g.y=1      at uppergravityCutOff
+                             and  g.y=reduce at lowergravityCutOff
+        with linear interpolation in between
+          hence g.(upper-lower) = 1-reduce
+                g = (1-reduce)/(upper-lower) is the g-field
+          or
+                reduce = 1 - g.(upper-lower), which must be positive
+          hence
+                0 < g < 1/(upper-lower)
+     */
+
+    // The variable gravityMult is g.(upper-lower).
+    reduce = 1.0 - gravityMult;
+
+    // Position and size of the initial trial circle.
+    double initialHoleX = xCentre;
+    double initialHoleY = 0.5*yCentre;
+    double initialHoleRad = 0.5*radius;
+
+    // Push the trial shape into the vector.
+    initialHoles.push_back(slsm::Hole(initialHoleX, initialHoleY, initialHoleRad));
+
+    // Initialise the level set domain.
+    slsm::LevelSet levelSet(width, height, initialHoles, targetHoles, moveLimit, 6, true);
+
+    // Store the mesh area.
+    double meshArea = levelSet.mesh.width * levelSet.mesh.height;
+
+    // Initialise io object.
+    slsm::InputOutput io;
+
+    // Reinitialise the level set to a signed distance function.
+    levelSet.reinitialise();
+
+    // Initialise the boundary object.
+    slsm::Boundary boundary;
+
+    // Initialise boundary points pointer.
+    points = &boundary.points;
+
+    // Initialise target area fraction vector.
+    std::vector<double> targetArea(levelSet.mesh.nElements);
+
+    // Discretise the target structure.
+    boundary.discretise(levelSet, true);
+    io.saveBoundarySegmentsTXT(0, boundary);
+
+    // Compute the element area fractions.
+    levelSet.computeAreaFractions(boundary);
+
+    // Store the target area fractions.
+    for (unsigned int i=0;i<levelSet.mesh.nElements;i++)
+        targetArea[i] = levelSet.mesh.elements[i].area;
+
+    // Perform initial boundary discretisation.
+    boundary.discretise(levelSet);
+
+    // Compute the element area fractions.
+    levelSet.computeAreaFractions(boundary);
+
+    // Compute the initial boundary point normal vectors.
+    boundary.computeNormalVectors(levelSet);
+
+    // Initialise random number generator.
+    slsm::MersenneTwister rng;
+
+    // Number of cycles since signed distance reinitialisation.
+    unsigned int nReinit = 0;
+
+    // Running time.
+    double runningTime = 0;
+
+    // Time measurements.
+    std::vector<double> times;
+
+    // Boundary length measurements (objective).
+    std::vector<double> lengths;
+
+    // Area mismatch measurements (constraint).
+    std::vector<double> mismatches;
+
+    // Centre of mass position measurements.
+    std::vector<double> xPositions;
+    std::vector<double> yPositions;
+
+    /* Lambda values for the optimiser.
+       These are reused, i.e. the solution from the current iteration is
+       used as an estimate for the next, hence we declare the vector
+       outside of the main loop.
+     */
+    std::vector<double> lambdas(2);
+
+    std::cout << "\nStarting bimodal demo...\n\n";
+
+    // Print output header.
+    printf("----------------------------------------------------\n");
+    printf("%9s %9s %10s %10s %10s\n", "Time", "Length", "Mismatch", "xPosition", "yPosition");
+    printf("----------------------------------------------------\n");
+
+    // Integrate until we exceed the maximum time.
+    while (runningTime < maxTime)
+    {
+        // Initialise the sensitivity object.
+        slsm::Sensitivity sensitivity;
+
+        // Initialise the sensitivity callback.
+        using namespace std::placeholders;
+        slsm::SensitivityCallback callback = std::bind(&computePointLength, _1);
+
+        // Assign boundary point sensitivities.
+        for (unsigned int i=0;i<boundary.points.size();i++)
+        {
+            boundary.points[i].sensitivities[0] =
+                sensitivity.computeSensitivity(boundary.points[i], callback);
+            boundary.points[i].sensitivities[1] =
+                computeConstraintSensitivity(boundary.points[i].coord, levelSet);
+        }
+
+        // Apply deterministic Ito correction.
+        sensitivity.itoCorrection(boundary, temperature);
+
+        // Time step associated with the iteration.
+        double timeStep;
+
+        // Constraint distance vector.
+        std::vector<double> constraintDistances;
+
+        // Current area mismatch.
+        double mismatch = computeMismatch(levelSet.mesh, targetArea);
+
+        // Push current distance from constraint violation into vector.
+        constraintDistances.push_back(meshArea*maxMismatch - mismatch);
+
+        // Initialise the optimisation object.
+        slsm::Optimise optimise(boundary.points, constraintDistances,
+            lambdas, timeStep, levelSet.moveLimit);
+
+        // Perform the optimisation.
+        optimise.solve();
+
+        // Extend boundary point velocities to all narrow band nodes.
+        levelSet.computeVelocities(boundary.points, timeStep, temperature, rng);
+
+        // Compute gradient of the signed distance function within the narrow band.
+        levelSet.computeGradients();
+
+        // Update the level set function.
+        bool isReinitialised = levelSet.update(timeStep);
+
+        // Reinitialise the signed distance function, if necessary.
+        if (!isReinitialised)
+        {
+            // Reinitialise at least every 20 iterations.
+            if (nReinit == 20)
+            {
+                levelSet.reinitialise();
+                nReinit = 0;
+            }
+        }
+        else nReinit = 0;
+
+        // Increment the number of steps since reinitialisation.
+        nReinit++;
+
+        // Compute the new discretised boundary.
+        boundary.discretise(levelSet);
+
+        // Compute the element area fractions.
+        levelSet.computeAreaFractions(boundary);
+
+        // Compute the boundary point normal vectors.
+        boundary.computeNormalVectors(levelSet);
+
+        // Increment the time.
+        runningTime += timeStep;
+
+        // Check if the next sample time has been reached.
+        while (runningTime >= nextSample)
+        {
+            // Compute the weighted boundary perimeter.
+            double length = computePerimeter(boundary.points);
+
+            // Compute the centre of mass of the shape.
+            double xPos, yPos;
+            computeCentreOfMass(boundary.points, xPos, yPos);
+
+            // Record the time, length, mismatch area, and positions.
+            times.push_back(runningTime);
+            lengths.push_back(length);
+            mismatches.push_back(mismatch);
+            xPositions.push_back(xPos-(width/2.0));
+            yPositions.push_back(yPos-(width/2.0));
+
+            // Update the time of the next sample.
+            nextSample += sampleInterval;
+
+            // Print statistics.
+            printf("%9.4e %8.4f %10.4f %10.4f %10.4f\n",
+                runningTime, length, mismatch / meshArea, xPos-(width/2.0), yPos-(height/2.0));
+
+            // Write level set and boundary segments to file.
+            io.saveLevelSetVTK(times.size(), levelSet);
+            io.saveBoundarySegmentsTXT(times.size(), boundary);
+        }
+    }
+
+    // Print results to file.
+    FILE *pFile;
+    std::ostringstream fileName, num;
+    num.str("");
+    fileName.str("");
+    num << std::fixed << std::setprecision(4) << temperature;
+    fileName << "bimodal_" << num.str() << ".txt";
+
+    pFile = fopen(fileName.str().c_str(), "w");
+    for (unsigned int i=0;i<times.size();i++)
+    {
+        fprintf(pFile, "%lf %lf %lf %lf %lf\n",
+            times[i] - times[0], lengths[i], mismatches[i] / meshArea, xPositions[i], yPositions[i]);
+    }
+    fclose(pFile);
+
+    std::cout << "\nDone!\n";
+
+    return (EXIT_SUCCESS);
+}
+
+// FUNCTION DEFINITIONS
+
+// Constraint sensitivity function definition.
+double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelSet& levelSet)
+{
+    /* Interpolate nodal signed distance mismatch to a boundary point using
+       inverse squared distance weighting. On length scales larger than a
+       grid spacing we are only concerned with the sign of the mismatch,
+       i.e. the direction that the boundary should move (out or in) in order
+       to reduce the mismatch.
+     */
+
+    // Zero the mismatch.
+    double mismatch = 0;
+
+    // Zero the weighting factor.
+    double weight = 0;
+
+    // Find the node that is cloest to the boundary point.
+    unsigned int node = levelSet.mesh.getClosestNode(coord);
+
+    // Loop over node and all of its neighbours.
+    for (int i=-1;i<4;i++)
+    {
+        // Index of neighbour.
+        unsigned int n;
+
+        // First test the node itself.
+        if (i < 0) n = node;
+
+        // Then its neighbours.
+        else n = levelSet.mesh.nodes[node].neighbours[i];
+
+        // There is no neighbour beyond the edge of the domain.
+        if (n == levelSet.mesh.nNodes) continue;
+
+        // Distance from the boundary point to the node in x & y direction.
+        double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
+        double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
+
+        // Squared distance.
+        double rSqd = dx*dx + dy*dy;
+
+        // If boundary point lies exactly on a node then use the sign of
+        // the mismatch at that node.
+        if (rSqd < 1e-6)
+        {
+            // Calculate nodal mismatch.
+            double m = levelSet.target[n] - levelSet.signedDistance[n];
+
+            // Smooth mismatch over a grid spacing.
+            if (std::abs(m) < 1.0) return m;
+
+            // Return the sign of the mismatch.
+            if (m < 0) return -1.0;
+            else return 1.0;
+        }
+
+        // Otherwise, update the interpolation estimate.
+        else
+        {
+            mismatch += (levelSet.target[n] - levelSet.signedDistance[n]) / rSqd;
+            weight   += 1.0 / rSqd;
+        }
+    }
+
+    // Compute weighted mismatch.
+    mismatch /= weight;
+
+    // Smooth mismatch over a grid spacing.
+    if (std::abs(mismatch) < 1.0) return mismatch;
+
+    // Return the sign of the interpolated mismatch.
+    if (mismatch < 0) return -1.0;
+    else return 1.0;
+}
+
+// Mismatch function definition.
+double computeMismatch(const slsm::Mesh& mesh, const std::vector<double>& targetArea)
+{
+    double areaMismatch = 0;
+
+    // Compute the total absolute area mismatch.
+    for (unsigned int i=0;i<mesh.nElements;i++)
+        areaMismatch += std::abs(targetArea[i] - mesh.elements[i].area);
+
+    return areaMismatch;
+}
+
+// Weighted perimeter function definition.
+double computePerimeter(const std::vector<slsm::BoundaryPoint>& points)
+{
+    double length = 0;
+
+    // Compute the total weighted boundary length.
+    for (unsigned int i=0;i<points.size();i++)
+        length += 0.5*computePointLength(points[i]);
+
+    return length;
+}
+
+// Boundary "centre of mass" function definition.
+void computeCentreOfMass(const std::vector<slsm::BoundaryPoint>& points, double& x, double& y)
+{
+    // Zero variables.
+    double length = 0;
+    x = 0;
+    y = 0;
+
+    // Compute the "centre of mass" of the boundary.
+    for (unsigned int i=0;i<points.size();i++)
+    {
+        // Compute the weighted point length.
+        double ll = computePointLength(points[i]);
+
+        // Update variables.
+        length += 0.5*ll;
+        x += points[i].coord.x * 0.5*ll;
+        y += points[i].coord.y * 0.5*ll;
+    }
+
+    // Normalise.
+    x /= length;
+    y /= length;
+}
+
+// Boundary point length function definition.
+double computePointLength(const slsm::BoundaryPoint& point)
+{
+    double length = 0;
+
+    // Store coordinates of the point.
+    double x1 = point.coord.x;
+    double y1 = point.coord.y;
+
+    // Sum the distance to each neighbour.
+    for (unsigned int i=0;i<point.nNeighbours;i++)
+    {
+        // Store coordinates of the neighbouring point.
+        double x2 = (*points)[point.neighbours[i]].coord.x;
+        double y2 = (*points)[point.neighbours[i]].coord.y;
+
+        // Compute separation components.
+        double dx = x2 - x1;
+        double dy = y2 - y1;
+
+        // Compute segment length.
+        double len = sqrt(dx*dx + dy*dy) / nDiscrete;
+
+        // Perform discrete boundary (line) integral.
+        for (unsigned int j=0;j<nDiscrete;j++)
+        {
+            // Compute y position along segment.
+            double y = y1 + (j+0.5)*dy/nDiscrete;
+
+            // Add weighted segment length.
+            length += computePerimeterWeight(y)*len;
+        }
+    }
+
+    return length;
+}
+
+// Perimeter weight function definition.
+double computePerimeterWeight(double y)
+{
+    if      (y > uppergravityCutOff) return 1.0;
+    else if (y < lowergravityCutOff) return reduce;
+    else
+    {
+        // Fractional distance along the gravity range.
+        double dy = (uppergravityCutOff - y) / gravityRange;
+
+        return (1.0 - dy*(1.0 - reduce));
+    }
+}
diff --git a/demos/bimodal_brolly.cpp b/demos/bimodal_brolly.cpp
index cd8fdd5..5d17af8 100644
--- a/demos/bimodal_brolly.cpp
+++ b/demos/bimodal_brolly.cpp
@@ -544,6 +544,9 @@ double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // There is no neighbour beyond the edge of the domain.
+        if (n == levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
diff --git a/demos/dumbbell.cpp b/demos/dumbbell.cpp
index 21b97e6..f854cb4 100644
--- a/demos/dumbbell.cpp
+++ b/demos/dumbbell.cpp
@@ -373,6 +373,9 @@ double computeConstraintSensitivity(const slsm::Coord& coord, const slsm::LevelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // There is no neighbour beyond the edge of the domain.
+        if (n == levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
diff --git a/demos/shape_match.cpp b/demos/shape_match.cpp
index d2c93e5..6977ebf 100644
--- a/demos/shape_match.cpp
+++ b/demos/shape_match.cpp
@@ -299,6 +299,9 @@ double computeSensitivity(const slsm::Coord& coord, const slsm::LevelSet& levelS
         // Then its neighbours.
         else n = levelSet.mesh.nodes[node].neighbours[i];
 
+        // There is no neighbour beyond the edge of the domain.
+        if (n == levelSet.mesh.nNodes) continue;
+
         // Distance from the boundary point to the node in x & y direction.
         double dx = levelSet.mesh.nodes[n].coord.x - coord.x;
         double dy = levelSet.mesh.nodes[n].coord.y - coord.y;
-- 
2.43.0


From 25317787c3d938e1924ce2d955d5a5e5d0246668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:13 +0000
Subject: [PATCH 33/33] fix: bimodal records the y position relative to the
 middle of the domain, as it prints it

---
 demos/bimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/bimodal.cpp b/demos/bimodal.cpp
index de51b1c..91d702d 100644
--- a/demos/bimodal.cpp
+++ b/demos/bimodal.cpp
@@ -358,7 +358,7 @@ int main(int argc, char** argv)
             lengths.push_back(length);
             mismatches.push_back(mismatch);
             xPositions.push_back(xPos-(width/2.0));
-            yPositions.push_back(yPos-(width/2.0));
+            yPositions.push_back(yPos-(height/2.0));
 
             // Update the time of the next sample.
             nextSample += sampleInterval;
-- 
2.43.0


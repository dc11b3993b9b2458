From cec43fbaa552c36b918ca4f14bd75cd446aa4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 01/47] hook: pool block size override for verification builds
 (SIMU_VERIF_POOL_BLOCK_SIZE)

---
 include/Simu/utility/Memory.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index d52c569..179b34d 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -165,9 +165,17 @@ private:
 };
 
 
+// Verification hook: lets a checker shrink the pool's blocks so that memory
+//  released to the pool is quickly returned to the system, where tools can see it.
+#ifdef SIMU_VERIF_POOL_BLOCK_SIZE
+inline constexpr std::size_t defaultPoolBlockSize = SIMU_VERIF_POOL_BLOCK_SIZE;
+#else
+inline constexpr std::size_t defaultPoolBlockSize = 32 * 1024;
+#endif
+
 // https://github.com/mtrebi/memory-allocators
 // https://en.cppreference.com/w/cpp/named_req/Allocator
-template <class T, std::size_t blockSize = 32 * 1024>
+template <class T, std::size_t blockSize = defaultPoolBlockSize>
 class FreeListAllocator
 {
 public:
-- 
2.43.0


From 78d0c703cf21310f2097b1a36849d41238800ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 02/47] fix: interval and box overlap must not depend on
 rounding of sums

---
 include/Simu/math/Interval.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/Simu/math/Interval.hpp b/include/Simu/math/Interval.hpp
index fdcb49d..9ef304b 100644
--- a/include/Simu/math/Interval.hpp
+++ b/include/Simu/math/Interval.hpp
@@ -53,24 +53,17 @@ public:
     ////////////////////////////////////////////////////////////
     auto contains(T value) const { return min_ <= value && value <= max_; }
 
+    ////////////////////////////////////////////////////////////
+    /// true if both intervals have at least one value in common.
+    /// Only comparisons are made: there is no rounding.
+    ///
+    /// Returns bool for most types.
+    /// Returns a ComparisonMatrix if T is a Matrix type.
+    ////////////////////////////////////////////////////////////
     auto overlaps(const Interval& other) const
     {
-        // divisions by 2 can be factorised out and removed from both sides.
-        // Geometrical interpretation is easier with:
-        //
-        // span = (max - min)/2 + (other.max - other.min)/2
-        //      is the sum of half widths
-        //
-        // dist = std::abs((max_ + min_)/2 - (other.max_ + other.min_)/2)
-        //      is the absolute distance between midpoints.
-        //
-        // we have intersection if
-        // dist <= span, or equivalently if 2*dist <= 2*span to remove divisions
-
-        T span = (max_ - min_) + (other.max_ - other.min_);
-        T dist = std::abs((max_ + min_) - (other.max_ + other.min_));
-
-        return dist <= span;
+        return min_ <= other.max_ && other.min_ <= max_ && min_ <= max_
+               && other.min_ <= other.max_;
     }
 
 private:
-- 
2.43.0


From 53d2c74c277e94325df786367a6c9d14fd5deb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 03/47] fix: RTree move constructor swapped with an
 uninitialised root

---
 include/Simu/physics/RTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..04a84f8 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -76,7 +76,10 @@ public:
     RTree(const RTree& other)            = delete;
     RTree& operator=(const RTree& other) = delete;
 
-    RTree(RTree&& other) noexcept { *this = std::move(other); }
+    RTree(RTree&& other) noexcept : RTree{other.alloc_}
+    {
+        *this = std::move(other);
+    }
     RTree& operator=(RTree&& other) noexcept
     {
         std::swap(alloc_, other.alloc_);
-- 
2.43.0


From e5622f1a3cfc9f91a4ede245624c48d0a614aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 04/47] fix: RTree insertion dereferenced null when the area of
 the bounds overflows

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 04a84f8..a46dde9 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -433,7 +433,7 @@ private:
         std::priority_queue<NodeCost, std::vector<NodeCost>, NodeCostCmp> queue{};
         queue.emplace(root_, 0.f);
 
-        NodeCost best = {nullptr, INFINITY};
+        NodeCost best = {root_, INFINITY};
         while (!queue.empty())
         {
             NodeCost current = queue.top();
-- 
2.43.0


From 7144f3ab1f8205cb38878f7f6bb8a4aa9b44e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/47] fix: erasing from RTree while iterating skipped or
 repeated elements

---
 include/Simu/physics/RTree.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index a46dde9..dd38f73 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -343,7 +343,7 @@ private:
         }
     }
 
-    void refit(Node* node)
+    void refit(Node* node, bool allowRotations = true)
     {
         // TODO: Benchmark and profile, we may not need to check rotations
         //  for all nodes whose bounds have changed.
@@ -356,7 +356,8 @@ private:
                 return;
 
             node->bounds = newBounds;
-            checkRotations(node);
+            if (allowRotations)
+                checkRotations(node);
 
             node = node->parent;
         }
@@ -463,7 +464,8 @@ private:
         return iterator{node};
     }
 
-    Node* extract(Node* node)
+    // Rotations change the iteration order.
+    Node* extract(Node* node, bool allowRotations = true)
     {
         Node* sibling = node->sibling();
 
@@ -472,14 +474,14 @@ private:
             if (sibling == nullptr || sibling->isLeaf())
             {
                 node->handle() = nullptr;
-                refit(node->parent);
+                refit(node->parent, allowRotations);
             }
             else
             {
                 node->replaceBy(sibling->left);
                 sibling->replaceBy(sibling->right);
 
-                refit(node->parent);
+                refit(node->parent, allowRotations);
 
                 sibling->left  = nullptr;
                 sibling->right = nullptr;
@@ -490,7 +492,7 @@ private:
         {
             sibling->handle() = nullptr;
             node->parent->replaceBy(sibling);
-            refit(node->parent->parent);
+            refit(node->parent->parent, allowRotations);
 
             node->handle() = nullptr;
             deleteNode(node->parent);
@@ -499,7 +501,7 @@ private:
         return node;
     }
 
-    void erase(Node* node) { deleteNode(extract(node)); }
+    void erase(Node* node) { deleteNode(extract(node, false)); }
 
     Uint32 height(const Node* subRoot) const
     {
-- 
2.43.0


From 199e5ccb4ee71932cbaf5d4d2b1bb9cb75340fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 06/47] fix: makeUnique for arrays did not compile (pointer to
 array type)

---
 include/Simu/utility/Memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 179b34d..ee81998 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -76,7 +76,7 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
     A                               a{alloc};
 
     Deleter d = [=](void* arr) mutable {
-        U* typed = static_cast<T*>(arr);
+        U* typed = static_cast<U*>(arr);
 
         for (std::size_t i = 0; i < size; ++i)
             std::allocator_traits<A>::destroy(a, typed + i);
@@ -84,7 +84,7 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
         std::allocator_traits<A>::deallocate(a, typed, size);
     };
 
-    T* arr = std::allocator_traits<A>::allocate(a, size);
+    U* arr = std::allocator_traits<A>::allocate(a, size);
 
     for (std::size_t i = 0; i < size; ++i)
         std::allocator_traits<A>::construct(a, arr + i);
-- 
2.43.0


From 0f8e55fda5868bac12b033c2e63984627fb731cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 07/47] fix: the bounding box of an empty range had
 uninitialised bounds

---
 include/Simu/physics/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..4ceb808 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -128,7 +128,7 @@ private:
 
 
 template <VertexIterator2D It>
-BoundingBox::BoundingBox(It begin, It end)
+BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From 8c973d7a9ab400d24b872c603da3b5ca94f835a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:15 +0000
Subject: [PATCH 08/47] fix: Gjk::separation could loop forever or return a
 wrong distance

---
 include/Simu/math/Gjk.inl.hpp | 42 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 9d18d5a..086fd21 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -205,34 +205,30 @@ Vec2 Gjk<T>::separation()
     if (areColliding())
         return Vec2{};
 
-    while (true)
+    // The closest point to the origin is always on the segment from a to b.
+    // Every iteration must bring it strictly closer, so this terminates.
+    Vertex a       = simplex_.pointStack[0];
+    Vertex b       = a;
+    Vec2   closest = a;
+
+    while (any(closest != Vec2{}))
     {
-        Vec2   dir = simplex_.nextDirection();
-        Vertex v   = furthestVertexInDirection(dir);
+        Vertex v = furthestVertexInDirection(-closest);
+
+        Vec2 onAV = LineBarycentric{a, v, Vec2{}}.closestPoint;
+        Vec2 onVB = LineBarycentric{v, b, Vec2{}}.closestPoint;
 
-        if (simplex_.hasPoint(v))
+        bool useAV = normSquared(onAV) < normSquared(onVB);
+        Vec2 next  = useAV ? onAV : onVB;
+
+        if (normSquared(next) >= normSquared(closest))
             break;
-        else
-            simplex_.pushPoint(v);
-    }
 
-    switch (simplex_.nIterations)
-    {
-        case 1: return -simplex_.pointStack[0];
-        case 2:
-            return -LineBarycentric{
-                simplex_.pointStack[0], simplex_.pointStack[1], Vec2{0, 0}
-            }
-                        .closestPoint;
-        default:
-            return -TriangleBarycentric{
-                simplex_.pointStack[0],
-                simplex_.pointStack[1],
-                simplex_.pointStack[2],
-                Vec2{0.f, 0.f}
-            }
-                        .closestPoint;
+        closest          = next;
+        (useAV ? b : a)  = v;
     }
+
+    return -closest;
 }
 
 template <Geometry T>
-- 
2.43.0


From 4a4cac5457a0a4ee9accbeac042b3f812d4183eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:41 +0000
Subject: [PATCH 09/47] fix: Gjk missed shallow collisions when the origin is
 on an edge of the simplex up to rounding

---
 include/Simu/math/Gjk.hpp     |  3 ++-
 include/Simu/math/Gjk.inl.hpp | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/Simu/math/Gjk.hpp b/include/Simu/math/Gjk.hpp
index 9b9f9dc..5a73fd4 100644
--- a/include/Simu/math/Gjk.hpp
+++ b/include/Simu/math/Gjk.hpp
@@ -55,7 +55,8 @@ struct Simplex
 
 private:
 
-    mutable bool keepBottomPoint_ = false;
+    // index in pointStack of the point that the next pushPoint replaces
+    mutable Uint32 droppedPoint_ = 2;
 };
 
 
diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 086fd21..bf6fb9c 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -41,15 +41,11 @@ Simplex::Simplex(Vec2 initialSearchDir) : initialSearchDir_{initialSearchDir}
 
 void Simplex::pushPoint(Vertex v)
 {
-    if (keepBottomPoint_)
-    {
-        pointStack[1]    = pointStack[2];
-        keepBottomPoint_ = false;
-    }
+    for (Uint32 i = droppedPoint_; i > 0; --i)
+        pointStack[i] = pointStack[i - 1];
 
-    pointStack[2] = pointStack[1];
-    pointStack[1] = pointStack[0];
     pointStack[0] = v;
+    droppedPoint_ = 2;
 
     Vec2 ab = pointStack[1] - pointStack[0];
     Vec2 bc = pointStack[2] - pointStack[1];
@@ -91,13 +87,21 @@ Vec2 Simplex::nextDirection() const
         default:
         {
             bool norm1TowardsOrigin = dot(normals[0], pointStack[0]) < 0;
-            // bool norm2TowardsOrigin = dot(normals[1], pointStack[0]) < 0;
+            bool norm2TowardsOrigin = dot(normals[1], pointStack[0]) < 0;
 
             if (norm1TowardsOrigin)
                 return normals[0];
 
-            keepBottomPoint_ = true;
-            return normals[1];
+            if (norm2TowardsOrigin)
+            {
+                droppedPoint_ = 1;
+                return normals[1];
+            }
+
+            // the origin was on the line of the first edge up to rounding,
+            //  it is on the other side of it.
+            droppedPoint_ = 0;
+            return normals[2];
         }
     }
 }
-- 
2.43.0


From 6e10acd813fe92493f36e31410f3dd994bcca6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:08 +0000
Subject: [PATCH 10/47] fix: Gjk kept a degenerate simplex when the origin was
 exactly on the line of its first edge

---
 include/Simu/math/Gjk.inl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index bf6fb9c..470ea27 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -79,7 +79,9 @@ Vec2 Simplex::nextDirection() const
         {
             Vec2  edge = pointStack[0] - pointStack[1];
             float k    = cross(pointStack[1], pointStack[0]);
-            if (k == 0.f)
+
+            // the simplex is a point, this only happens if there is no area
+            if (all(edge == Vec2{}))
                 return perp(initialSearchDir_);
 
             return perp(edge, k < 0);
-- 
2.43.0


From bf8c3d1cd2cd6192084813dc05083cf77c507dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 11/47] fix: Gjk::penetration threw or was null for a simplex
 without area

---
 include/Simu/math/Gjk.inl.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 470ea27..3fae66d 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -133,11 +133,30 @@ Polytope::Polytope(const Simplex& simplex)
     Vertex second = simplex.pointStack[1];
     Vertex third  = simplex.pointStack[2];
 
+    Orientation sign = orientation(first, second, third, 0.f);
+    if (sign == Orientation::collinear)
+    {
+        // The origin is on the simplex, which has no area:
+        //  only its end points are on the boundary of a polytope.
+        float d01 = normSquared(second - first);
+        float d12 = normSquared(third - second);
+        float d20 = normSquared(first - third);
+
+        if (d12 >= d01 && d12 >= d20)
+            first = third;
+        else if (d20 >= d01)
+            second = third;
+
+        vertices.emplace_back(first);
+        vertices.emplace_back(second);
+        return;
+    }
+
     vertices.emplace_back(first);
     vertices.emplace_back(second);
     vertices.emplace_back(third);
 
-    if (orientation(first, second, third, 0.f) == Orientation::negative)
+    if (sign == Orientation::negative)
         std::reverse(vertices.begin(), vertices.end());
 }
 
-- 
2.43.0


From c5b722e7954c99678d5c3f5b0b7cc55ba233a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 12/47] fix: TriangleBarycentric was wrong or threw for
 degenerate, small or thin triangles

---
 src/Simu/math/BarycentricCoordinates.cpp | 38 ++++++++++--------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/Simu/math/BarycentricCoordinates.cpp b/src/Simu/math/BarycentricCoordinates.cpp
index 3537c27..5f51058 100644
--- a/src/Simu/math/BarycentricCoordinates.cpp
+++ b/src/Simu/math/BarycentricCoordinates.cpp
@@ -31,7 +31,7 @@ namespace simu
 TriangleBarycentric::TriangleBarycentric(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
     : AB{A, B, Q}, BC{B, C, Q}, CA{C, A, Q}
 {
-    Orientation sign = orientation(A, B, C);
+    Orientation sign = orientation(A, B, C, 0.f);
 
     u = 0.5f * cross(B - Q, C - Q);
     v = 0.5f * cross(C - Q, A - Q);
@@ -44,29 +44,23 @@ TriangleBarycentric::TriangleBarycentric(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
         w = -w;
     }
 
-    // vertex regions
-    if ((AB.v <= 0) && (CA.u <= 0))
-        closestPoint = A;
-    else if ((AB.u <= 0) && (BC.v <= 0))
-        closestPoint = B;
-    else if ((BC.u <= 0) && (CA.v <= 0))
-        closestPoint = C;
-    else // edge regions
+    bool hasArea = sign != Orientation::collinear;
+
+    // the signs of u, v and w are not enough for very thin triangles
+    bool inVertexRegion = ((AB.v <= 0) && (CA.u <= 0)) || ((AB.u <= 0) && (BC.v <= 0))
+                          || ((BC.u <= 0) && (CA.v <= 0));
+
+    if (hasArea && !inVertexRegion && (u >= 0) && (v >= 0) && (w >= 0))
     {
-        if ((u <= 0) && (BC.u >= 0) && (BC.v >= 0))
-            closestPoint = BC.closestPoint;
-        else if ((v <= 0) && (CA.u >= 0) && (CA.v >= 0))
-            closestPoint = CA.closestPoint;
-        else if ((w <= 0) && (AB.u >= 0) && (AB.v >= 0))
-            closestPoint = AB.closestPoint;
-        else // interior region
-        {
-            if ((u >= 0) && (v >= 0) && (w >= 0))
-                closestPoint = Q;
-            else
-                throw simu::Exception{"Could not determine the closest point"};
-        }
+        closestPoint = Q;
+        return;
     }
+
+    // edge and vertex regions
+    closestPoint = AB.closestPoint;
+    for (Vec2 candidate : {BC.closestPoint, CA.closestPoint})
+        if (normSquared(candidate - Q) < normSquared(closestPoint - Q))
+            closestPoint = candidate;
 }
 
 
-- 
2.43.0


From 2819b0aff1719a9be438c95063d5b966bf641b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 13/47] fix: QR Solver accepted singular matrices because of
 rounding errors

---
 include/Simu/math/Matrix.inl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index b152174..721b0e6 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <limits>
+
 #include "Simu/math/Matrix.hpp"
 
 namespace simu
@@ -413,11 +415,18 @@ Solver<T, n>::Solver(const Matrix<T, n, n>& A) : R_{}
 
     auto Q = A.asCols();
 
+    // A column that depends on the previous ones leaves a remainder of the
+    //  order of the rounding errors, not exactly 0.
+    constexpr T    tolerance = 4 * n * std::numeric_limits<T>::epsilon();
+    Vector<T, n> dependentNorms;
+    for (Uint32 col = 0; col < n; ++col)
+        dependentNorms[col] = tolerance * norm(Q[col]);
+
     for (Uint32 col = 0; col < n; ++col)
     {
         R_(col, col) = norm(Q[col]);
 
-        isValid_ = isValid_ && R_(col, col) != 0.f;
+        isValid_ = isValid_ && R_(col, col) > dependentNorms[col];
         if (!isValid_)
             return;
 
-- 
2.43.0


From dc1a3710cd832764afbcd6db86f2397e541c2a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 14/47] fix: LcpSolver returned zero when rounding rejected
 every case at a boundary

---
 include/Simu/math/Matrix.inl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index 721b0e6..ce0582a 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -572,7 +572,16 @@ public:
         if (all(-b >= Vector<T, 2>::filled(0.f)))
             return x;
 
-        return x; // all null
+        // The solution is at the limit between having one or both variables
+        //  positive and rounding errors have rejected all cases.
+        //  Keep the one that satisfies the other inequality the best.
+        Vector<T, 2> x1{std::max(T{0}, b[0] * invA11), T{0}};
+        Vector<T, 2> x2{T{0}, std::max(T{0}, b[1] * invA22)};
+
+        T violation1 = b[1] - x1[0] * solver.A_(1, 0);
+        T violation2 = b[0] - x2[1] * solver.A_(0, 1);
+
+        return (violation1 < violation2) ? x1 : x2;
     }
 
     Matrix<T, 2, 2> original() const { return solver.original(); }
-- 
2.43.0


From 34994ea46029090e880673cec8294d1029ebb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:11 +0000
Subject: [PATCH 15/47] fix: clip contacts to the extent of the reference edge

The incident edge was intersected with the lines of the neighbours of the
reference edge, and its start was taken when they were parallel. Overlapping
pointed shapes got no contact at all, or contacts beside the edge that miss
the deepest point. (C07)
---
 include/Simu/physics/ContactManifold.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..66bf03a 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -217,18 +217,29 @@ private:
         const Uint32 ref = referenceIndex();
         const Uint32 inc = incidentIndex();
 
-        auto refEdges = edgesOf(*colliders_[ref]);
-
-        Edge previousOfRef{*refEdges.previous(contactEdges[ref])};
-        Edge nextOfRef{*refEdges.next(contactEdges[ref])};
+        const Edge& refEdge = contactEdges[ref];
+        const Edge& incEdge = contactEdges[inc];
+
+        // point of the incident edge that is nearest to bound when
+        //  projected along the reference edge
+        auto clipTo = [&](Vertex bound) {
+            float d = dot(incEdge.direction(), refEdge.direction());
+            if (d == 0.f)
+                return dot(incEdge.direction(), contactNormal_) < 0.f
+                           ? incEdge.to()
+                           : incEdge.from();
+
+            float t = dot(bound - incEdge.from(), refEdge.direction()) / d;
+            return incEdge.from() + clamp(t, 0.f, 1.f) * incEdge.direction();
+        };
 
         Vec2 n = -contactNormal_;
 
-        Vertex contact1 = contactEdges[inc].clipInside(previousOfRef);
+        Vertex contact1 = clipTo(refEdge.from());
         if (dot(contact1 - contactEdges[ref].from(), n) >= 0.f)
             contacts_[inc][nContacts_++] = contact1;
 
-        Vertex contact2 = contactEdges[inc].clipInside(nextOfRef);
+        Vertex contact2 = clipTo(refEdge.to());
         if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)
         {
             contacts_[inc][nContacts_++] = contact2;
-- 
2.43.0


From c48b3e0ee20747b228033255075af30e122873a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 16/47] fix: Body destructor iterated its colliders while
 erasing them (C11)

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..7c9988c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From c94293c057a13afaab7c79b7179a431f433fc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 17/47] fix: remove contacts of removed colliders and notify
 them like other objects

Contacts were destroyed without being told of it, a collider removed or a body
that became dead during World::step left contacts that read released memory. (C11)
---
 include/Simu/physics/World.hpp |  1 +
 src/Simu/physics/World.cpp     | 60 +++++++++++++++++++++++++---------
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..520f8e6 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -353,6 +353,7 @@ private:
     void applyForces(float dt);
 
     struct Cleaner;
+    void removeKilledContacts();
     void cleanup();
 
     void updateBodies(float dt);
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..fa97d84 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -68,13 +68,15 @@ void World::step(float dt)
         SIMU_PROFILE_ENTRY(profiler_.narrowPhaseCollision);
 
         for (auto& c : contacts_)
-            if (c.second.existingContact != nullptr)
+            if (c.second.existingContact != nullptr
+                && !c.second.existingContact->killed_)
                 c.second.existingContact.get()->preStep();
     }
 
     for (ForceField& f : forceFields())
         f.preStep();
 
+    removeKilledContacts();
 
     if (dt > 0.f)
     {
@@ -96,7 +98,8 @@ void World::step(float dt)
     for (Constraint& c : constraints())
         c.postStep();
     for (auto& c : contacts_)
-        if (c.second.existingContact != nullptr)
+        if (c.second.existingContact != nullptr
+            && !c.second.existingContact->killed_)
             c.second.existingContact->postStep();
     for (ForceField& f : forceFields())
         f.postStep();
@@ -166,8 +169,14 @@ struct World::Cleaner
     {
         std::vector<typename Container::iterator> dead;
         for (auto it = container.begin(); it != container.end(); ++it)
+        {
             if (isDead(it))
+            {
+                // stays dead for the objects that depend on it.
+                access(it)->killed_ = true;
                 dead.emplace_back(it);
+            }
+        }
 
         return dead;
     }
@@ -221,33 +230,50 @@ void World::removeCollider(Collider* collider)
     }
 }
 
-void World::cleanup()
+// contacts whose body or collider is being removed must be removed with it
+void World::removeKilledContacts()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
+    std::vector<typename ContactList::iterator> killed;
+
+    for (auto it = contacts_.begin(); it != contacts_.end(); ++it)
     {
         ContactConstraint* contact = it->second.existingContact.get();
-        if (contact != nullptr && contact->isDead())
-        {
-            for (Body* b : contact->bodies())
-            {
-                std::erase(b->contacts_, contact);
-                b->wake();
-            }
+        if (contact != nullptr && contact->killed_)
+            killed.emplace_back(it);
+    }
 
-            it = contacts_.erase(it);
-        }
-        else
+    for (auto it : killed)
+    {
+        ContactConstraint* contact = it->second.existingContact.get();
+        for (Body* b : contact->bodies())
         {
-            ++it;
+            std::erase(b->contacts_, contact);
+            b->wake();
         }
     }
 
+    for (auto it : killed)
+        it->second.existingContact->onDestruction(*this);
+
+    for (auto it : killed)
+        contacts_.erase(it);
+}
 
+void World::cleanup()
+{
     Cleaner cleaner{};
 
+    // bodies first, since constraints and contacts die with their bodies
+    auto deadBodies      = cleaner.deadObjects(bodies_);
     auto deadConstraints = cleaner.deadObjects(constraints_);
     auto deadForces      = cleaner.deadObjects(forces_);
-    auto deadBodies      = cleaner.deadObjects(bodies_);
+
+    for (auto& c : contacts_)
+    {
+        ContactConstraint* contact = c.second.existingContact.get();
+        if (contact != nullptr && contact->isDead())
+            contact->killed_ = true;
+    }
 
     for (auto c : deadConstraints)
     {
@@ -262,6 +288,8 @@ void World::cleanup()
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    removeKilledContacts();
+
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From ae6ebeb196bf2387ff5ca624a39dd2a812828d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 18/47] fix: no contact between two structural bodies

Making one throws, out of World::step. (C12)
---
 src/Simu/physics/World.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index fa97d84..6b0b8e8 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -318,7 +318,7 @@ void World::updateBodies(float dt)
 
         const Body* b0 = colliders[0]->body();
         const Body* b1 = colliders[1]->body();
-        if (b0 == b1)
+        if (b0 == b1 || (b0->isStructural() && b1->isStructural()))
             return;
 
         for (Constraint* c : b0->constraints())
-- 
2.43.0


From 356217bfc896b7b4ebdfef090d34a39da5eb5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 19/47] fix: setContactFactory left bodies referring to
 released contacts (C12)

---
 include/Simu/physics/World.hpp | 6 +-----
 src/Simu/physics/World.cpp     | 9 +++++++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 520f8e6..97e4e02 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -136,11 +136,7 @@ public:
         colliderTree_.clear();
     }
 
-    void setContactFactory(ContactFactory makeContact)
-    {
-        contacts_.clear();
-        makeContactConstraint_ = makeContact;
-    }
+    void setContactFactory(ContactFactory makeContact);
 
     ////////////////////////////////////////////////////////////
     /// \brief Gives a view over the Bodies in the world
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 6b0b8e8..e57a40b 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -105,6 +105,15 @@ void World::step(float dt)
         f.postStep();
 }
 
+void World::setContactFactory(ContactFactory makeContact)
+{
+    // bodies refer to their contacts until they are cleaned up.
+    for (ContactConstraint& contact : contacts())
+        contact.kill();
+
+    makeContactConstraint_ = makeContact;
+}
+
 typename World::ContactFactory World::defaultContactFactory =
     [](Collider& first, Collider& second, const typename World::ContactAlloc& alloc
     ) { return makeUnique<ContactConstraint>(alloc, first, second); };
-- 
2.43.0


From 869ca7999c52a8a575312bae4e919c8e0a1d5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 20/47] fix: velocity of the centroid when colliders are added
 or removed

The displacement of the centroid was computed before it moved, it was always
null. (C22)
---
 include/Simu/physics/Body.hpp |  2 ++
 src/Simu/physics/Body.cpp     | 21 +++++++++++----------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index 7c9988c..159ae68 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -389,6 +389,8 @@ private:
 
     void update() { colliders_.update(toWorldSpace()); }
 
+    void updateCentroid();
+
     bool isImmobile(float velocityTreshold, float angularVelocityTreshold) const
     {
         return normSquared(velocity()) < velocityTreshold * velocityTreshold
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..306da6e 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -45,16 +45,12 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 {
     SIMU_ASSERT(world_ != nullptr, "Body must be owned by a World");
 
-    Vec2 oldCentroid = centroid();
-
     Collider* c = colliders_.add(descriptor, this);
 
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
-    Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
-    setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
+    updateCentroid();
 
     update();
     world_->addCollider(c);
@@ -64,8 +60,6 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 
 void Body::removeCollider(Collider* collider)
 {
-    Vec2 oldCentroid = centroid();
-
     world_->removeCollider(collider);
     colliders_.remove(collider);
     if (colliders_.isEmpty())
@@ -75,11 +69,18 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
-    Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
-    setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
+    updateCentroid();
 
     update();
 }
 
+void Body::updateCentroid()
+{
+    Vec2 newCentroid = colliders_.properties().centroid;
+    Vec2 displacement = toWorldSpace().rotation() * (newCentroid - localCentroid());
+
+    setVelocity(velocity() + angularVelocity() * perp(displacement));
+    position_.setLocalCentroid(newCentroid);
+}
+
 } // namespace simu
-- 
2.43.0


From 56500140d7a6231fac18a804044300c3335c01df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:15 +0000
Subject: [PATCH 21/47] fix: world queries used old bounds of a body whose
 colliders changed

Adding or removing a collider moves the centroid the body is rotated about. (C25)
---
 include/Simu/physics/World.hpp | 5 +++++
 src/Simu/physics/Body.cpp      | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 97e4e02..b27c200 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -333,6 +333,11 @@ private:
 
     void removeCollider(Collider* collider);
 
+    void updateCollider(Collider* collider)
+    {
+        colliderTree_.update(collider->treeLocation_, collider->boundingBox());
+    }
+
     UniquePtr<ContactConstraint>
     makeContactConstraint(Collider& first, Collider& second);
 
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 306da6e..677191d 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -54,6 +54,8 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 
     update();
     world_->addCollider(c);
+    for (Collider& moved : colliders_.colliders_)
+        world_->updateCollider(&moved);
 
     return c;
 }
@@ -72,6 +74,8 @@ void Body::removeCollider(Collider* collider)
     updateCentroid();
 
     update();
+    for (Collider& moved : colliders_.colliders_)
+        world_->updateCollider(&moved);
 }
 
 void Body::updateCentroid()
-- 
2.43.0


From 39f5f49bbd4a02bc189e8e675f40cc81e7698443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 22/47] fix: evaluate each constraint once per step, inactive
 ones included (C13)

---
 include/Simu/physics/Island.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 09f42f0..b68cec1 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -43,6 +43,7 @@ public:
         : bodies_{alloc},
           constraints_{alloc},
           contacts_{alloc},
+          inactive_{alloc},
           positions_{alloc},
           velocities_{alloc}
     {
@@ -204,7 +205,7 @@ private:
     template <class T, class C>
     bool addConstraint(T* constraint, C& container)
     {
-        if (constraint->bodies().hasProxies())
+        if (constraint->bodies().hasProxies() || inactive_.contains(constraint))
             return false;
 
         container.emplace_back(constraint);
@@ -217,7 +218,8 @@ private:
 
         constraint->bodies().startSolve(positions_.data(), velocities_.data());
 
-        // TODO: Must be called **exactly** once per constraint.
+        // Must be called **exactly** once per constraint: moving one of its bodies
+        //  must not activate it later in the step.
         if (!constraint->isActive(constraint->bodies().getProxies()))
         {
             if (added2)
@@ -238,6 +240,7 @@ private:
 
             constraint->bodies().endSolve();
             container.pop_back();
+            inactive_.insert(constraint);
             return false;
         }
 
@@ -248,6 +251,9 @@ private:
     std::vector<Constraint*, ReboundTo<Alloc, Constraint*>> constraints_;
     std::vector<ContactConstraint*, ReboundTo<Alloc, ContactConstraint*>> contacts_;
 
+    // kept when the island is cleared
+    std::set<const Constraint*, std::less<const Constraint*>, ReboundTo<Alloc, const Constraint*>> inactive_;
+
     std::vector<Position, ReboundTo<Alloc, Position>> positions_;
     std::vector<Velocity, ReboundTo<Alloc, Velocity>> velocities_;
 
-- 
2.43.0


From a63a3fbda45906d6d0c9cdf56fd4a5bc512cac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:52 +0000
Subject: [PATCH 23/47] fix: allow distance constraints without maximum (C18)

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From b72f6fc8f2eaecc34f16d229f6a77a6782ac94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 24/47] fix: motors only act along their direction (C19)

---
 include/Simu/physics/Motors.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/Simu/physics/Motors.hpp b/include/Simu/physics/Motors.hpp
index 76d7451..7ed0906 100644
--- a/include/Simu/physics/Motors.hpp
+++ b/include/Simu/physics/Motors.hpp
@@ -55,16 +55,9 @@ public:
 
     Value clampLambda(Value lambda, float dt) const
     {
-        Value maxImpulse = direction_ * throttle_ * maxForce_ * dt;
-
-        Uint32 i = 0;
-        for (auto& l : lambda)
-        {
-            auto bound = maxImpulse[i++];
-            l = (bound < 0) ? clamp(l, bound, 0.f) : clamp(l, 0.f, bound);
-        }
-
-        return lambda;
+        // a motor only acts along its direction
+        float maxImpulse = throttle_ * maxForce_ * dt;
+        return direction_ * clamp(dot(lambda, direction_), 0.f, maxImpulse);
     }
 
     Value clampPositionLambda(Value /* lambda */) const { return Value{}; }
-- 
2.43.0


From dbda7914f11f7520784cc1b89242c7bbed5ebe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:05 +0000
Subject: [PATCH 25/47] fix: constraints used the masses their bodies had at
 construction (C16)

---
 include/Simu/physics/Bodies.hpp     |  7 +++++--
 include/Simu/physics/Bodies.inl.hpp | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index 11baef7..2c76d7d 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -242,12 +242,15 @@ private:
         proxies_ = Proxies{
             SolverProxy{ps + index0, vs + index0},
             SolverProxy{ps + index1, vs + index1},
-            invMasses_
+            invMasses()
         };
     }
 
     void endSolve() { proxies_ = Proxies{}; }
 
+    // the masses of the bodies may change at any time between steps
+    inline InvMasses invMasses() const;
+
     bool hasProxies() const { return proxies_[0].position_ != nullptr; }
 
     Proxies& getProxies()
@@ -260,7 +263,7 @@ private:
 
     Proxies proxies_{};
 
-    InvMasses invMasses_;
+    Dominance dominances_;
 };
 
 
diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..740df2e 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -84,24 +84,32 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         bodies_[i++] = body;
     }
 
-    Dominance d = dominances.value_or(
+    dominances_ = dominances.value_or(
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
+}
+
 
-    invMasses_.m0 = d[0] * bodies_[0]->invMass();
-    invMasses_.I0 = d[0] * bodies_[0]->invInertia();
-    invMasses_.m1 = d[1] * bodies_[1]->invMass();
-    invMasses_.I1 = d[1] * bodies_[1]->invInertia();
+InvMasses Bodies::invMasses() const
+{
+    const Dominance& d = dominances_;
+
+    return InvMasses{
+        d[0] * bodies_[0]->invMass(),
+        d[0] * bodies_[0]->invInertia(),
+        d[1] * bodies_[1]->invMass(),
+        d[1] * bodies_[1]->invInertia()
+    };
 }
 
 
 bool Bodies::isBodyStructural(const Body* body) const
 {
     if (body == bodies_[0])
-        return invMasses_.m0 == 0.f;
+        return dominances_[0] == 0.f;
 
     if (body == bodies_[1])
-        return invMasses_.m1 == 0.f;
+        return dominances_[1] == 0.f;
 
     SIMU_ASSERT(false, "Body is not part of these bodies.");
     return true;
-- 
2.43.0


From 071bb41dff2daced3b7015be965a74255ebce67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 26/47] fix: contact points too close to each other made
 World::step throw (C20)

---
 include/Simu/physics/Constraint.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Constraint.hpp b/include/Simu/physics/Constraint.hpp
index 76d315e..aa8532e 100644
--- a/include/Simu/physics/Constraint.hpp
+++ b/include/Simu/physics/Constraint.hpp
@@ -297,7 +297,7 @@ public:
 
             // Box2d's LCP solver ////////////
             Vec2 b        = -(err - alreadyComputed + bounce_);
-            normalLambda_ = normalKSolver_.solve(b);
+            normalLambda_ = solveNormals(b);
 
             //////////////////////////////////
 
@@ -359,7 +359,7 @@ public:
 
 
             // Box2d's LCP solver /////////////////
-            posLambda = normalKSolver_.solve(-error);
+            posLambda = solveNormals(-error);
 
             ///////////////////////////////////////
 
@@ -482,6 +482,18 @@ private:
         }
     }
 
+    Vec2 solveNormals(const Vec2& b) const
+    {
+        if (normalKSolver_.isValid())
+            return normalKSolver_.solve(b);
+
+        // The contacts are too close to each other relative to the bodies,
+        //  only the one with the largest error needs to be solved.
+        Mat2 K = normalKSolver_.original();
+        return b[0] > b[1] ? Vec2{std::max(0.f, b[0] / K(0, 0)), 0.f}
+                           : Vec2{0.f, std::max(0.f, b[1] / K(1, 1))};
+    }
+
     void computeBounce(const Proxies& proxies)
     {
         bounce_ = Jn * proxies.velocity();
-- 
2.43.0


From 1ee949f4e3d73ae76bfc43a350f9e43257ad0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 27/47] fix: the grab tool kept using its constraint after the
 constraint was destroyed (C27)

---
 include/Simu/app/Tool.hpp           |  6 ++++++
 include/Simu/app/VisiblePhysics.hpp | 14 ++++++++++++++
 src/Simu/app/Tool.cpp               | 21 +++++++++++++--------
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index ab694b5..4b37a3d 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -77,6 +77,10 @@ public:
 
 
     Grabber(Scene& scene) : scene_{scene} {}
+    ~Grabber() override { release(); }
+
+    Grabber(const Grabber&)            = delete;
+    Grabber& operator=(const Grabber&) = delete;
 
     void        doGui() override {}
     const char* getName() const override { return name; }
@@ -90,7 +94,9 @@ public:
 private:
 
     VisibleMouseConstraint* makeMouseConstraint(Body* b, Vec2 pos);
+    void                    release();
 
+    // reset by the constraint when it is destroyed
     VisibleMouseConstraint* mc_ = nullptr;
     Scene&                  scene_;
 };
diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 5a919d8..8b37c05 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -213,6 +213,16 @@ public:
     {
     }
 
+    ~VisibleMouseConstraint() override
+    {
+        if (handle_ != nullptr && *handle_ == this)
+            *handle_ = nullptr;
+    }
+
+    // handle will be set to nullptr if it points to this constraint when it is destroyed.
+    // It must outlive this constraint, or be removed with setHandle(nullptr).
+    void setHandle(VisibleMouseConstraint** handle) { handle_ = handle; }
+
 protected:
 
     void postStep() override { Visible::draw(); }
@@ -225,6 +235,10 @@ protected:
             renderer.drawLine(bodyPos(), mousePos(), purple);
         }
     }
+
+private:
+
+    VisibleMouseConstraint** handle_ = nullptr;
 };
 
 
diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 0602932..a88ea6f 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -46,20 +46,15 @@ bool Grabber::onMousePress(Mouse::Input input)
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
             if (!b->isStructural())
             {
-                if (mc_ != nullptr)
-                    mc_->kill();
-
+                this->release();
                 mc_ = this->makeMouseConstraint(b, input.pos);
+                mc_->setHandle(&mc_);
             }
         });
     }
     else if (input.action == Mouse::Action::release)
     {
-        if (mc_ != nullptr)
-        {
-            mc_->kill();
-            mc_ = nullptr;
-        }
+        release();
     }
     else
     {
@@ -87,6 +82,16 @@ VisibleMouseConstraint* Grabber::makeMouseConstraint(Body* b, Vec2 pos)
     );
 }
 
+void Grabber::release()
+{
+    if (mc_ != nullptr)
+    {
+        mc_->setHandle(nullptr);
+        mc_->kill();
+        mc_ = nullptr;
+    }
+}
+
 
 ////////////////////////////////////////////////////////////
 // BoxSpawner
-- 
2.43.0


From 1e2a1bb7511a71e694637a942aa711101f736c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 28/47] fix: the grab tool picked dying bodies over live ones
 (C27)

---
 src/Simu/app/Tool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index a88ea6f..d8ba998 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -44,7 +44,7 @@ bool Grabber::onMousePress(Mouse::Input input)
     if (input.action == Mouse::Action::press)
     {
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
-            if (!b->isStructural())
+            if (!b->isStructural() && !b->isDead())
             {
                 this->release();
                 mc_ = this->makeMouseConstraint(b, input.pos);
-- 
2.43.0


From e0f15706d243c9d1e42577b839ffb7db911fc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 29/47] fix: changing tools left the grabbed body attached to
 the cursor (C27)

---
 include/Simu/app/Scene.hpp | 3 +++
 include/Simu/app/Tool.hpp  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/Simu/app/Scene.hpp b/include/Simu/app/Scene.hpp
index d679c5a..dbcaefd 100644
--- a/include/Simu/app/Scene.hpp
+++ b/include/Simu/app/Scene.hpp
@@ -165,6 +165,9 @@ protected:
         {
             if (t->getName() == name)
             {
+                if (tool_ != t.get())
+                    tool_->onDeselect();
+
                 tool_ = t.get();
                 return currentTool();
             }
diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index 4b37a3d..a37f312 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -47,6 +47,9 @@ public:
     virtual bool onMousePress(Mouse::Input input)  = 0;
     virtual bool onMouseMove(Vec2 newPos)          = 0;
     virtual bool onMouseScroll(Vec2 scroll)        = 0;
+
+    // called when another tool replaces this one
+    virtual void onDeselect() {}
 };
 
 class NoTool : public Tool
@@ -87,6 +90,7 @@ public:
 
     bool onMousePress(Mouse::Input input) override;
     bool onMouseMove(Vec2 pos) override;
+    void onDeselect() override { release(); }
 
     bool onKeypress(Keyboard::Input /* input */) override { return false; }
     bool onMouseScroll(Vec2 /* scroll */) override { return false; }
-- 
2.43.0


From 6dd3259ee1eebde06e9b3a14503a7ead8a7e7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:27 +0000
Subject: [PATCH 30/47] fix: the pause button disagreed with the scene after P
 or a change of scene (C31)

---
 src/Simu/app/Application.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index 6b52477..e69dcbc 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -289,7 +289,6 @@ void Application::doGui(float dt)
         // for scene
         float playSpeed   = 1.f;
         bool  restart     = false;
-        bool  pauseToggle = false;
         bool  step        = false;
 
         bool showProfiler       = true;
@@ -459,20 +458,19 @@ void Application::doGui(float dt)
         if (ImGui::Button("+"))
             scene_->setPlaySpeed(scene_->playSpeed() * 2.f);
 
-        if (ImGui::Button(menu.pauseToggle ? "Play (P)" : "Pause (P)"))
+        if (ImGui::Button(scene_->isPaused() ? "Play (P)" : "Pause (P)"))
         {
-            menu.pauseToggle = !menu.pauseToggle;
-            if (menu.pauseToggle)
-                scene_->pause();
-            else
+            if (scene_->isPaused())
                 scene_->resume();
+            else
+                scene_->pause();
         }
 
         if (ImGui::Button("Restart (R)"))
             scene_->reset();
 
         // TODO:
-        // if (menu.pauseToggle)
+        // if (scene_->isPaused())
         //     if (ImGui::Button("Step (S)"))
         //         scene_->step();
 
-- 
2.43.0


From 6d15e23962c8372010716843f907dc892ba685a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:27 +0000
Subject: [PATCH 31/47] fix: scrolling several notches, part of one or sideways
 zoomed the wrong way (C31)

---
 src/Simu/app/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Simu/app/Scene.cpp b/src/Simu/app/Scene.cpp
index 6b78987..3093cc5 100644
--- a/src/Simu/app/Scene.cpp
+++ b/src/Simu/app/Scene.cpp
@@ -109,8 +109,7 @@ bool Scene::onKeypress(Keyboard::Input input)
 
 bool Scene::onMouseScroll(Vec2 scroll)
 {
-    float zoomRatio = (scroll[1] < 0.f) ? 4.f / 5.f : 5.f / 4.f;
-    camera().setZoom(camera().zoom() * std::abs(scroll[1]) * zoomRatio);
+    camera().setZoom(camera().zoom() * std::pow(5.f / 4.f, scroll[1]));
     return true;
 }
 
-- 
2.43.0


From 03ad97ec22681ce5e4d4ce4ee8c8547542c6d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 32/47] fix: showing the options of the box tool changed its
 orientation and colour (C31)

---
 src/Simu/app/Tool.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index d8ba998..6f890f6 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -105,16 +105,15 @@ void BoxSpawner::doGui()
     ImGui::SliderFloat("Friction", &friction, 0.f, 1.f);
     ImGui::SliderFloat("Bounciness", &bounciness, 0.f, 1.f);
 
-    constexpr float pi    = std::numbers::pi_v<float>;
-    float           ratio = orientation / (2.f * pi);
-    orientation -= std::floor(ratio) * pi;
-    int degrees = static_cast<int>(180 * orientation / pi);
-    ImGui::SliderInt("Orientation", &degrees, -180, 180);
-    orientation = degrees * pi / 180.f;
+    constexpr float pi = std::numbers::pi_v<float>;
+    orientation        = std::remainder(orientation, 2.f * pi);
+    int degrees = static_cast<int>(std::round(180 * orientation / pi));
+    if (ImGui::SliderInt("Orientation", &degrees, -180, 180))
+        orientation = degrees * pi / 180.f;
 
     Vec4 rgba = color / 255.f;
-    ImGui::ColorEdit3("Color", rgba.data);
-    color = static_cast<Rgba>(rgba * 255.f);
+    if (ImGui::ColorEdit3("Color", rgba.data))
+        color = static_cast<Rgba>(rgba * 255.f + Vec4::filled(0.5f));
 }
 
 bool BoxSpawner::onMousePress(Mouse::Input input)
-- 
2.43.0


From ed8b171ddc743293d25770bd9a192de59b621492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 33/47] fix: the initial viewport was in window coordinates
 instead of pixels (C31)

---
 src/Simu/app/Application.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index e69dcbc..a868806 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -172,7 +172,7 @@ Application::Application()
     renderer_ = std::make_unique<OpenGlRenderer>();
 
     int w, h;
-    glfwGetWindowSize(window_, &w, &h);
+    glfwGetFramebufferSize(window_, &w, &h);
     renderer_->setViewport(Vec2i{0, 0}, Vec2i{w, h});
 
     // glfwSwapInterval(1);
-- 
2.43.0


From f662c34c94d8912f4a2250b862fdacb779a20635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 34/47] fix: points drawn with 256 vertices or more never ended
 (C29)

---
 src/Simu/app/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 7ef4073..083aab0 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -116,7 +116,7 @@ void Renderer::drawPoint(Vec2 P, Rgba color)
 {
     v_.clear();
 
-    for (Uint8 i = 0; i < getPointPrecision(); ++i)
+    for (Uint32 i = 0; i < getPointPrecision(); ++i)
     {
         v_.emplace_back(P + pointOffsets_[i]);
     }
-- 
2.43.0


From db57a93e58818f19cb53212c53cb2fc7fab083e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 35/47] fix: the width of a contour depended on the angles of
 the polygon (C29)

---
 src/Simu/app/Renderer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 083aab0..713ee49 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -64,8 +64,11 @@ void Renderer::drawContouredPolygon(
     for (auto e1 = edges.begin(); e1 != edges.end(); ++e1)
     {
         auto e2 = edges.next(e1);
-        v_[i++]
-            += (e1->normalizedNormal() + e2->normalizedNormal()) * contourWidth;
+        Vec2 n1 = e1->normalizedNormal();
+        Vec2 n2 = e2->normalizedNormal();
+
+        // at a distance of contourWidth from both edges
+        v_[i++] += (n1 + n2) * (contourWidth / (1.f + dot(n1, n2)));
     }
 
     const Vertices& cOuter = v_;
-- 
2.43.0


From ba1cbf8a3d90296514a980dc8bd0cfbac6162214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 36/47] fix: showing a distance constraint of length zero threw
 from World::step (C29)

---
 include/Simu/app/VisiblePhysics.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 8b37c05..b41123d 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -195,12 +195,11 @@ protected:
         Rgba turquoise = Rgba{50, 235, 235, 255};
 
         auto points = f.localFixedPoints();
+        Vec2 from   = bodies()[0]->toWorldSpace() * points[0];
+        Vec2 to     = bodies()[1]->toWorldSpace() * points[1];
 
-        renderer.drawLine(
-            bodies()[0]->toWorldSpace() * points[0],
-            bodies()[1]->toWorldSpace() * points[1],
-            turquoise
-        );
+        if (any(from != to))
+            renderer.drawLine(from, to, turquoise);
     }
 };
 
-- 
2.43.0


From 70a95ca99e75d4cb985a8365f5f408d277000996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:03 +0000
Subject: [PATCH 37/47] fix: moving a timer lost its measure (C30)

---
 include/Simu/physics/Profiler.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index b11ab3e..2dbf86e 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -88,10 +88,9 @@ public:
 
     ScopedTimer(const ScopedTimer&) = delete;
     ScopedTimer(ScopedTimer&& other)
+        : entry_{other.entry_}, start_{other.start_}, partial_{other.partial_}
     {
-        std::swap(entry_, other.entry_);
-        entry_   = other.entry_;
-        partial_ = other.partial_;
+        other.entry_ = nullptr;
     }
 
     ~ScopedTimer()
-- 
2.43.0


From 29d9df21f96f469cabaae36ba20826078fcb54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 38/47] fix: a refused collider stayed in its body (C34)

---
 include/Simu/physics/Collider.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..04cb856 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,11 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        // validates the descriptor, nothing must be added if it is refused
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
-- 
2.43.0


From 55a2f3085188e5d5410cba7f036b76360d4f8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 39/47] fix: constraints of null bodies crashed instead of
 being refused (C34)

---
 include/Simu/physics/Bodies.inl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index 740df2e..5bf12ef 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -81,6 +81,7 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
     Uint32 i = 0;
     for (auto body : bodies)
     {
+        SIMU_ASSERT(body != nullptr, "Invalid body");
         bodies_[i++] = body;
     }
 
-- 
2.43.0


From 4aae8444bef79b5c9f1b4f90981424106539ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 40/47] fix: makeUnique lost its memory when a constructor
 throws (C34)

---
 include/Simu/utility/Memory.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index ee81998..e11c640 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -60,7 +60,15 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     };
 
     T* obj = std::allocator_traits<A>::allocate(a, 1);
-    std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    try
+    {
+        std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    }
+    catch (...)
+    {
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+        throw;
+    }
     return {obj, d};
 }
 
@@ -86,8 +94,20 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
 
     U* arr = std::allocator_traits<A>::allocate(a, size);
 
-    for (std::size_t i = 0; i < size; ++i)
-        std::allocator_traits<A>::construct(a, arr + i);
+    std::size_t constructed = 0;
+    try
+    {
+        for (; constructed < size; ++constructed)
+            std::allocator_traits<A>::construct(a, arr + constructed);
+    }
+    catch (...)
+    {
+        while (constructed > 0)
+            std::allocator_traits<A>::destroy(a, arr + --constructed);
+
+        std::allocator_traits<A>::deallocate(a, arr, size);
+        throw;
+    }
 
     return {arr, d};
 }
-- 
2.43.0


From 684b0e9137ed93e7190d170778a99a1b8a4f6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 41/47] fix: refused limits replaced the previous ones (C34)

---
 include/Simu/physics/ConstraintSolver.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index aee48c0..fc5f2cc 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -312,13 +312,13 @@ public:
 
     void setLowerLimit(std::optional<Value> L)
     {
+        assertLimits(L, U_);
         L_ = L;
-        assertLimits();
     }
     void setUpperLimit(std::optional<Value> U)
     {
+        assertLimits(L_, U);
         U_ = U;
-        assertLimits();
     }
 
     bool isActive(const Proxies& proxies, const F& f) const
@@ -460,10 +460,11 @@ public:
 
 private:
 
-    void assertLimits() const
+    static void
+    assertLimits(const std::optional<Value>& L, const std::optional<Value>& U)
     {
-        if (L_.has_value() && U_.has_value())
-            SIMU_ASSERT(all(L_.value() <= U_.value()), "Invalid limits");
+        if (L.has_value() && U.has_value())
+            SIMU_ASSERT(all(L.value() <= U.value()), "Invalid limits");
     }
 
     enum class Func
-- 
2.43.0


From 0a0d354bb42f80de8576b21f5291a53ca9e08d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 42/47] fix: bodies and constraints referred to a solve cut
 short by an error (C34)

---
 include/Simu/physics/Island.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index b68cec1..028151f 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -52,6 +52,9 @@ public:
     Island(const Island&) = delete;
     Island(Island&&)      = delete;
 
+    // Solving may throw, the bodies and constraints must not refer to this island.
+    ~Island() { release(); }
+
     void init(Body* root)
     {
         addBody(root);
@@ -169,17 +172,24 @@ public:
             b->velocity_ = velocities_[b->proxyIndex];
             b->position_ = positions_[b->proxyIndex];
             b->update();
-            b->proxyIndex = Body::NO_INDEX;
         }
 
+        release();
+    }
+
+private:
+
+    void release()
+    {
+        for (Body* b : bodies_)
+            b->proxyIndex = Body::NO_INDEX;
+
         for (Constraint* c : constraints_)
             c->bodies().endSolve();
         for (ContactConstraint* c : contacts_)
             c->bodies().endSolve();
     }
 
-private:
-
     bool addBody(Body* body)
     {
         bool isNew = body->proxyIndex == Body::NO_INDEX;
-- 
2.43.0


From f6ede2613a86a0af4d1c1ef755983325f3f0c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:18 +0000
Subject: [PATCH 43/47] fix: an error while making a contact broke the collider
 tree (C34)

---
 src/Simu/physics/World.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index e57a40b..9eb268f 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -321,8 +321,14 @@ void World::updateBodies(float dt)
 
     typedef typename ColliderTree::iterator ColliderIt;
 
+    // making contacts may throw, this must not happen while the tree is updated
+    std::vector<std::array<simu::Collider*, 2>> newContacts{};
+
+    for (auto& contact : contacts_)
+        contact.second.hit = false;
+
     // check for new contacts
-    auto registerContact = [=, this](ColliderIt first, ColliderIt second) {
+    auto registerContact = [&, this](ColliderIt first, ColliderIt second) {
         std::array<simu::Collider*, 2> colliders{*first, *second};
 
         const Body* b0 = colliders[0]->body();
@@ -343,8 +349,7 @@ void World::updateBodies(float dt)
         auto contact = inContacts(colliders);
 
         if (contact == contacts_.end())
-            contacts_[colliders] = ContactStatus{
-                makeContactConstraint(**first, **second), true};
+            newContacts.emplace_back(colliders);
         else
             contact->second.hit = true;
     };
@@ -355,6 +360,10 @@ void World::updateBodies(float dt)
         colliderTree_.updateAndCollide(
             [](ColliderIt it) { return (*it)->boundingBox(); }, registerContact
         );
+
+        for (const auto& colliders : newContacts)
+            contacts_[colliders] = ContactStatus{
+                makeContactConstraint(*colliders[0], *colliders[1]), true};
     }
 
     SIMU_PROFILE_TREE_HEIGHT(profiler_, colliderTree_);
@@ -366,8 +375,6 @@ void World::updateBodies(float dt)
         {
             cs.existingContact->kill();
         }
-
-        cs.hit = false;
     }
 }
 
-- 
2.43.0


From d1e75c782972f254dcef0f8be9bc7f807f5b60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 44/47] fix: correcting positions without limits threw from
 World::step (C18)

---
 include/Simu/physics/ConstraintSolver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index fc5f2cc..8aeb973 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -424,7 +424,10 @@ public:
         {
             case Func::equality:
             {
-                posLambda = f.clampPositionLambda(solve(effMass, -(C - L_.value())));
+                if (L_.has_value())
+                    C -= L_.value();
+
+                posLambda = f.clampPositionLambda(solve(effMass, -C));
                 break;
             }
             case Func::lower:
-- 
2.43.0


From bf0812e8245b9a8f29d6ef124c3928dd3620d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:58 +0000
Subject: [PATCH 45/47] fix: damping of inequalities depended on the iterations
 (C35)

---
 include/Simu/physics/ConstraintSolver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index 8aeb973..69d897b 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -227,8 +227,10 @@ public:
 
     void solveVelocity(Proxies& proxies, const F& f, float dt)
     {
-        // TODO: Incorrect! must not use damping
-        Value correctedError = effectiveMass_ * this->getAccumulatedLambda();
+        // must not use damping, it applies to the whole accumulated lambda.
+        Jacobian J              = this->getJacobian();
+        Value    correctedError = J * proxies.inverseMass() * transpose(J)
+                               * this->getAccumulatedLambda();
 
         Value lambda = solveInequalities(
             effectiveMass_,
-- 
2.43.0


From ebc089ad021b7b2e4684e3d110ff98551838f211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:22 +0000
Subject: [PATCH 46/47] fix: correcting a constraint that only damping makes
 solvable threw (C35)

---
 include/Simu/physics/ConstraintSolver.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index 69d897b..e0a145b 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -180,6 +180,8 @@ public:
 
         Jacobian J = f.jacobian(proxies);
         solver_    = KSolver{this->computeEffectiveMass(proxies, f, false)};
+        if (!solver_.isValid())
+            return; // only damping made the constraint solvable
 
         Value posLambda          = f.clampPositionLambda(solver_.solve(-error));
         State positionCorrection = transpose(J) * posLambda;
-- 
2.43.0


From f3c9c1add58a6aba51bdb898c5730ac673e6d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:39 +0000
Subject: [PATCH 47/47] fix: a limit that was slack began again with impulses
 of before (C35)

---
 include/Simu/physics/ConstraintSolver.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index e0a145b..8b896a2 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -325,9 +325,15 @@ public:
         U_ = U;
     }
 
-    bool isActive(const Proxies& proxies, const F& f) const
+    bool isActive(const Proxies& proxies, const F& f)
     {
-        return nextFunc(proxies, f) != Func::off;
+        bool active = nextFunc(proxies, f) != Func::off;
+
+        // the impulses of before cannot warmstart the next activation
+        if (!active)
+            func_ = Func::off;
+
+        return active;
     }
 
 
-- 
2.43.0


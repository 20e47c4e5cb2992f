From 2130013056f3aa7714e187d98bf119e1be5a9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 1/7] fix: convert Translation2 between coordinate types
 through its accessors

The converting constructor read the private members of another
specialization, so Translation2v{Translation2d} and Pose2v{Pose2d} did not
compile.
---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From c426459fbc7f7142ed0b00883f9e4b6b95de86f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 2/7] fix: let Rotation2::RotateBy return the common coordinate
 type

Rotating a Rotation2v by a Rotation2d returned Rotation2d from a Rotation2v
expression and did not compile.
---
 include/trajopt/geometry/Rotation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
-- 
2.43.0


From bae76ba7102236748194ea245671e9064803d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 3/7] fix: compare the squared line-point distance with the
 squared minimum distance

LinePointDistance() returns the squared distance, which was squared once more
before it was compared with the squared minimum distance: the robot was kept
sqrt(minDistance) away instead of minDistance.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..4d0a392 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist =
+        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..416fa5c 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
+    auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From 91a78d30f941f898494d73ccfcea97f3598ddbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 4/7] fix: close the obstacle outline with its own last corner

The closing edge of an obstacle was built from the obstacle corner whose
index is the bumper's corner count minus one: the wrong edge when the counts
differ, or an out-of-range access.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 21511390c4d93f6150f2d476ec57ae94d0813555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 5/7] fix: keep going after a single-point bumper meets a
 single-point obstacle

The obstacle functions returned, so that all bumpers added after that one
were not kept clear of the obstacle.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From ffb896812cc37e4ede53e383aba77ee99bae364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:39 +0000
Subject: [PATCH 6/7] fix: limit the time step by every pair of modules, and
 only when there is one

The order in which swerve modules are listed does not matter, but the
smallest module distance was taken over neighbours in the list only. With
fewer than two distinct positions the limit was an infinite bound.
---
 src/SwerveTrajectoryGenerator.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..5dbcddd 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -107,22 +107,30 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
+                   path.drivetrain.modules.at(i).translation.X()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
+                               path.drivetrain.modules.at(i).translation.X()));
+      }
+      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                               path.drivetrain.modules.at(i).translation.Y()));
+      }
     }
   }
 
   for (size_t sgmtIndex = 0; sgmtIndex < sgmtCnt; ++sgmtIndex) {
     dt.emplace_back(problem.DecisionVariable());
+
+    // Without two distinct module positions, there's no width to limit by
+    if (minWidth == INFINITY) {
+      continue;
+    }
+
     for (auto module : path.drivetrain.modules) {
       problem.SubjectTo(dt.at(sgmtIndex) * module.wheelRadius *
                             module.wheelMaxAngularVelocity <=
-- 
2.43.0


From 1b0408a349f5d14933784a74a4cb152bfdc6bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 7/7] fix: take a line whose ends coincide as a point in the
 line-point distance constraints

---
 include/trajopt/constraint/LinePointConstraint.hpp | 5 ++++-
 include/trajopt/constraint/PointLineConstraint.hpp | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index 4d0a392..836c2a3 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,11 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
+    // A line whose ends coincide is a point; it has no direction to project on
+    bool isPoint = (m_robotLineEnd - m_robotLineStart).SquaredNorm() == 0.0;
     auto squaredDist =
-        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+        isPoint ? (lineStart - m_fieldPoint).SquaredNorm()
+                : detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
     problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 416fa5c..e0836c1 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,8 +58,12 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto squaredDist =
-        detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
+    // A line whose ends coincide is a point; it has no direction to project on
+    bool isPoint = (m_fieldLineEnd - m_fieldLineStart).SquaredNorm() == 0.0;
+    auto squaredDist = isPoint
+                           ? (m_fieldLineStart - point).SquaredNorm()
+                           : detail::LinePointDistance(m_fieldLineStart,
+                                                       m_fieldLineEnd, point);
     problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
-- 
2.43.0


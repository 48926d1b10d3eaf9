From 598f85acd2b3a32da5b6ec290d6e0a19b3857434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 01/38] fix: test the END_VEL bit in the end velocity cost

The logical && rejected every request that asked for this cost.
---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From d787a0cc689d77cd69252bbb8bdcbd52f74e2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 02/38] fix: use the angular momentum constraints in
 compute6dControlPointInequalities

The kinematic constraints were passed instead, so that they overwrote the
last rows and the angular momentum constraints were ignored.
---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From d394844e136a28528c5af30b1810cf9a8e3bb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 03/38] fix: size the matrix of the upper bounds of a QP
 correctly

Three rows were missing, the bounds were written out of the matrix.
---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From d53fc66ca04aba9d036bca009241fd6ce90ef1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 04/38] fix: identify free waypoints by their index

A waypoint fixed at the origin by the constraints was taken for the free
one, and all the free waypoints were bound to the first variable.
---
 src/waypoints_definition.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..dbe0b99 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -298,15 +298,27 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
     const ProblemData& pData, double T) {
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
+  const ConstraintFlag flag = pData.constraints_.flag_;
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the waypoints fixed by the constraints come first and last, whatever their
+  // value is, and the waypoints in between depend on the variables
+  size_t first = 0;
+  for (ConstraintFlag f : {INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK})
+    if (flag & f) ++first;
+  size_t last = pts.size();
+  if (flag & END_POS)
+    for (ConstraintFlag f : {END_POS, END_VEL, END_ACC, END_JERK})
+      if (flag & f) --last;
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= first && i < last) {
+      // several waypoints may depend on the same variable
+      const int var =
+          std::min(int(i - first) * DIM_POINT, DIM_VAR - DIM_POINT);
+      w.first.block<3, 3>(0, var) = Matrix3::Identity();
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From d1cd685ef1bdf68f3d744cd506de61a2cc180e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 05/38] fix: ignore maxAcceleration in the continuous
 formulation when unused

The bound was enforced even with constraintAcceleration_ false.
---
 src/computeCOMTraj.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..46f5f4e 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -369,7 +369,8 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
     }
   }
   // acceleration constraints : 6 per points
-  num_ineq += (degree - 1) * 6 * Ts.size();
+  if (pData.constraints_.constraintAcceleration_)
+    num_ineq += (degree - 1) * 6 * Ts.size();
   return num_ineq;
 }
 
@@ -497,6 +498,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
             phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
     }
     // add acceleration constraints :
+    if (!pData.constraints_.constraintAcceleration_) continue;
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-- 
2.43.0


From abb83daf40af6dde268189fbdda85f2cf45c1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 06/38] fix: scale the acceleration of the continuous
 formulation by the time

The waypoints of the derivative are stored without their 1/T^2 factor.
---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 46f5f4e..ed3af84 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -501,10 +501,12 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     if (!pData.constraints_.constraintAcceleration_) continue;
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      // the waypoints of a derivative are stored without the time scaling
+      const waypoint_t wp = (*wpit) * ddcs.mult_T_;
+      A.block(id_rows, 0, 3, 3) = wp.first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - wp.second;
+      A.block(id_rows + 3, 0, 3, 3) = -wp.first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + wp.second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From decf1a5a0d8fee33b8e9d97c2438f0419d4e8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 07/38] fix: keep all the dynamic constraints of the continuous
 force formulation

The first or last waypoint of a phase was dropped when the neighbouring
phase has fewer contact generators, although this does not imply that
its constraints are stricter.
---
 src/computeCOMTraj.cpp | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index ed3af84..18ce0e1 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -389,22 +389,10 @@ long int computeNumEqContinuous(const ProblemData& pData, const int w_degree,
                                 const bool useForce, long int& forceVarDim) {
   long int numEq = 0;
   if (useForce) {
-    long int cSize = 0;
-    int currentDegree;  // remove redundant equalities depending on more
-                        // constraining problem
-    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
-    ++it2;
     for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-         it != pData.contacts_.end(); ++it, ++it2) {
-      currentDegree = w_degree + 1;
-      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
-        currentDegree -= 1;
-      cSize = it->contactPhase_->m_G_centr.cols();
-      if (it2 != pData.contacts_.end() &&
-          it2->contactPhase_->m_G_centr.cols() <= cSize)
-        currentDegree -= 1;
-      forceVarDim += cSize * (currentDegree);
-      numEq += (numRowsForce) * (currentDegree);
+         it != pData.contacts_.end(); ++it) {
+      forceVarDim += it->contactPhase_->m_G_centr.cols() * (w_degree + 1);
+      numEq += (numRowsForce) * (w_degree + 1);
     }
   }
   return numEq;
@@ -455,7 +443,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   int dimH;
   Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
 
-  long int cSize = 0;
   long int rowIdx = 0;
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
@@ -483,16 +470,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
         assignStabilityConstraintsForTimeStep(mH, h, *wpit, dimH, id_rows, A, b,
                                               phase.contactPhase_->m_gravity);
     } else {
-      bezier_wp_t::cit_point_t start = ws.waypoints().begin();
-      bezier_wp_t::cit_point_t stop = ws.waypoints().end();
-      if (id_phase + 1 < (size_t)Ts.size() &&
-          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
-              phase.contactPhase_->m_G_centr.cols())
-        --stop;
-      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
-      cSize = phase.contactPhase_->m_G_centr.cols();
-      for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
-           ++wpit, rowIdx += 6)
+      for (bezier_wp_t::cit_point_t wpit = ws.waypoints().begin();
+           wpit != ws.waypoints().end(); ++wpit, rowIdx += 6)
         assignStabilityConstraintsForTimeStepForce(
             *wpit, rowIdx, id_cols, phase.contactPhase_->m_G_centr, D, d,
             phase.contactPhase_->m_mass, phase.contactPhase_->m_gravity);
-- 
2.43.0


From 21095fbc10502b24db37e5a554d978406ec97736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 08/38] fix: use the waypoints of the jerk constraints in
 computeBezierCurve

---
 include/hpp/bezier-com-traj/utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
-- 
2.43.0


From 2c8f0313f2d8279e5c269cea57f1251a645b030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 09/38] fix: use the first waypoint of the curve constrained up
 to the jerk

evaluate*CurveAtTime used the last waypoint instead of the first one.
---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..fcef65f 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -21,8 +21,8 @@ static const size_t DIM_POINT = 3;
 /**
  * @brief evaluateCurveAtTime compute the expression of the point on the curve
  * at t, defined by the waypoint pi and one free waypoint (x)
- * @param pi constant waypoints of the curve, assume pi[8] pi[1] pi[2] pi[3] x
- * pi[4] pi[5] pi[6] pi[7]
+ * @param pi constant waypoints of the curve, assume pi[0] pi[1] pi[2] pi[3] x
+ * pi[5] pi[6] pi[7] pi[8]
  * @param t param (normalized !)
  * @return the expression of the waypoint such that wp.first . x + wp.second =
  * point on curve
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From 77502c3fbaea310f04464abf469efd2d4e1f48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 10/38] fix: compute w(t) for the curve constrained up to the
 jerk

computeWwaypoints was the one of the degree 6 curve, that uses other
waypoints.
---
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 191 +++++-------------
 1 file changed, 48 insertions(+), 143 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index fcef65f..b622da5 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -217,150 +217,55 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   }
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
   const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
+  const double alpha = 1 / (T * T);
+  const unsigned int n = 8;          // degree of c
+  const unsigned int m = 2 * n - 3;  // degree of w
+  const unsigned int id_x = 4;       // index of the free waypoint
+  using ndcurves::bin;
 
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  // waypoints of (c x dc) * T, a curve of degree m + 1
+  std::vector<waypoint_t> l(m + 2, initwp(3, DIM_VAR));
+  for (unsigned int i = 0; i <= n; ++i) {
+    for (unsigned int j = i + 1; j <= n; ++j) {
+      const unsigned int k = i + j - 1;
+      const double coef =
+          (double)bin(n, i) * bin(n, j) * (j - i) / bin(m + 1, k);
+      if (i == id_x)
+        l[k].first -= coef * Cpi[j];
+      else if (j == id_x)
+        l[k].first += coef * Cpi[i];
+      else
+        l[k].second += coef * Cpi[i] * pi[j];
+    }
+  }
+  // w = [ddc ; g x c + c x ddc], with c and ddc elevated to degree m
+  for (unsigned int k = 0; k <= m; ++k) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    for (unsigned int i = 0; i <= n; ++i) {
+      if (i > k || k - i > m - n) continue;
+      const double coef = (double)bin(n, i) * bin(m - n, k - i) / bin(m, k);
+      if (i == id_x)
+        w.first.block<3, 3>(3, 0) += coef * Cg;
+      else
+        w.second.tail<3>() += coef * Cg * pi[i];
+    }
+    for (unsigned int i = 0; i + 2 <= n; ++i) {
+      if (i > k || k - i > m + 2 - n) continue;
+      const double coef = n * (n - 1) * alpha * bin(n - 2, i) *
+                          bin(m + 2 - n, k - i) / bin(m, k);
+      const double diff[3] = {1., -2., 1.};
+      for (unsigned int j = 0; j < 3; ++j) {
+        if (i + j == id_x)
+          w.first.block<3, 3>(0, 0) += coef * diff[j] * Matrix3::Identity();
+        else
+          w.second.head<3>() += coef * diff[j] * pi[i + j];
+      }
+    }
+    // c x ddc is the derivative of c x dc
+    w.first.block<3, 3>(3, 0) += (m + 1) * alpha * (l[k + 1] - l[k]).first;
+    w.second.tail<3>() += (m + 1) * alpha * (l[k + 1] - l[k]).second;
+    wps.push_back(w);
+  }
   return wps;
 }
 
-- 
2.43.0


From f31f4c4021886f9346ce93fc26365aed0b09ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 11/38] fix: use the right waypoint in the acceleration of the
 curve with jerk

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index b622da5..a0297cc 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -341,7 +341,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From d420a567eef5b546f826e31b2bef04788c2d1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 12/38] fix: compute the final velocity of the curves
 constrained up to the jerk

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh       | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh    | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh    | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index a0297cc..1ff6c97 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -404,9 +404,8 @@ std::vector<waypoint_t> computeJerkWaypoints(
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-8.0 * pi[7] + 8.0 * pi[8]) / T;
   return v;
 }
 
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..eec2497 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -442,9 +442,8 @@ std::vector<waypoint_t> computeJerkWaypoints(
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-10.0 * pi[9] + 10.0 * pi[10]) / T;
   return v;
 }
 
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..355b7de 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -496,9 +496,8 @@ std::vector<waypoint_t> computeJerkWaypoints(
 inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   coefs_t v;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-12.0 * pi[11] + 12.0 * pi[12]) / T;
   return v;
 }
 
-- 
2.43.0


From 1a97c4626c91ddfde93508ef0f8c8f5c1f61a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 13/38] fix: order the terms of the velocity and acceleration
 of the x3 curve

The terms of the polynomials were multiplied by the wrong power of t.
---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index eec2497..6c57d87 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
-- 
2.43.0


From 978608ed7100e6344a57db331ee2b6474ad8c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 14/38] fix: correct the acceleration waypoints of the x3 and
 x5 curves

One waypoint was pushed twice and wrong waypoints were combined.
---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh  | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 6c57d87..0ec18ec 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 355b7de..5b6b635 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From 072d2901e0a4dff921b6fc48a73c4099c0dab88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 15/38] fix: use the jerk bounds for the upper bound of the end
 effector jerk

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From 7534dcdb0356e3cde6849c4c53b881404429d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 16/38] fix: allow to copy a ContactData without contact phase

---
 include/hpp/bezier-com-traj/data.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..e188777 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -33,8 +33,10 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
 
   ContactData(const ContactData& other)
-      : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+      : contactPhase_(other.contactPhase_
+                          ? new centroidal_dynamics::Equilibrium(
+                                *(other.contactPhase_))
+                          : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 2874b0248fe971722b97f26e8ffe6b2353538640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 17/38] fix: allocate the GLPK elements according to the size
 of the problem

The fixed size arrays overflowed with more than 20000 elements.
---
 src/glpk-wrapper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..cc67547 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -44,9 +44,12 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  // GLPK elements are numbered from 1
+  const size_t numElements =
+      1 + (size_t)((CI.rows() + CE.rows()) * x.size());
+  std::vector<int> ia(numElements);     // Row indices of each element
+  std::vector<int> ja(numElements);     // column indices of each element
+  std::vector<double> ar(numElements);  // values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +99,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From edfaa17916042334510ffc98ccd5286e38a21f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 18/38] fix: initialize the initial angular momentum of
 ProblemData

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index e188777..a71bdb7 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From 653d70aa0b36d2bb01c6d1c5f0daf59b59d7c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 19/38] fix: do not sample the end of a phase twice because of
 rounding errors

With a time step that divides the duration of the phase, the accumulated
time could be slightly lower than the end of the phase.
---
 src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index b1217d2..acf56b2 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -108,7 +108,8 @@ T_time computeDiscretizedTime(const VectorX& phaseTimings,
            "phase");
     t = currentTiming;
     currentTiming += phaseTimings[i];
-    while (t < currentTiming) {
+    // a tolerance prevents rounding errors from adding the end of the phase twice
+    while (t < currentTiming - 1e-6 * timeStep) {
       timeArray.push_back(std::make_pair(t, i));
       t += timeStep;
     }
-- 
2.43.0


From 90a3fc1f09bab1b2ca43d5eb4ef4a10fc78b328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 20/38] fix: reject requests without contact phase or without
 point per phase

They lead to accesses out of the bounds of empty vectors.
---
 src/computeCOMTraj.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 18ce0e1..a6e1aaa 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -518,6 +518,10 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (pData.contacts_.empty())
+    throw std::runtime_error("At least one contact phase is required");
+  if (pointsPerPhase == 0)
+    throw std::runtime_error("At least one point per phase is required");
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
@@ -539,6 +543,8 @@ ResultDataCOMTraj computeCOMTraj(const ProblemData& pData, const VectorX& Ts,
     throw std::runtime_error(
         "Time phase vector has different size than the number of contact "
         "phases");
+  if (pData.contacts_.empty())
+    throw std::runtime_error("At least one contact phase is required");
   double T = Ts.sum();
   T_time timeArray;
   std::pair<MatrixXX, VectorX> Ab;
-- 
2.43.0


From d8393da04cdf1e63372679b9f06c489e1f2346da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 21/38] fix: recognise dependent constraints of a QP whatever
 its scale

The solver looped for ever on a constraint that add_constraint found to depend
on the active ones, failed on feasible problems with a large Hessian and ignored
their equality constraints.
---
 .../solver/eiquadprog-fast.hpp                | 10 +++++
 src/eiquadprog-fast.cpp                       | 43 +++++++++++--------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp b/include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp
index 49d1f19..1f927d5 100644
--- a/include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp
+++ b/include/hpp/bezier-com-traj/solver/eiquadprog-fast.hpp
@@ -245,6 +245,16 @@ class EiquadprogFast {
         r.head(iq));
   }
 
+  /// whether the constraint of image d = J' np depends linearly on the iq active
+  /// constraints, up to rounding errors. Only ratios are compared, so that the
+  /// answer does not depend on the scale of the Hessian nor of the constraint.
+  inline bool is_dependent(const VectorXd& d, int iq, double R_norm) const {
+    if (iq >= d.size()) return true;
+    const double norm = d.tail(d.size() - iq).norm();
+    return norm <= 1e-10 * d.norm() ||
+           norm <= 2 * std::numeric_limits<double>::epsilon() * R_norm;
+  }
+
   inline bool add_constraint(MatrixXd& R, MatrixXd& J, VectorXd& d, int& iq,
                              double& R_norm);
 
diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..680251d 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -343,10 +343,11 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
 
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
-    t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
-      t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    if (is_dependent(d, iq, R_norm)) {  // i.e. z == 0
+      // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
+    }
+    t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
 
@@ -540,8 +541,7 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (!is_dependent(d, iq, R_norm))  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
@@ -613,10 +613,11 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;  // equalities have negative indices
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0;  // look for another constraint than the one just excluded
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
@@ -765,10 +766,11 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
 
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
-    t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
-      t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    if (is_dependent(d, iq, R_norm)) {  // i.e. z == 0
+      // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
+    }
+    t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
 
@@ -859,15 +861,22 @@ l1:
   s = ci0;
   s.noalias() += CI * x;
   iaexcl.setOnes();
-  psi = (s.cwiseMin(VectorXd::Zero(nIneqCon))).sum();
 #else
-  psi = 0.0; /* this value will contain the sum of all infeasibilities */
   for (i = 0; i < nIneqCon; i++) {
     iaexcl(i) = 1;
     s(i) = CI.row(i).dot(x) + ci0(i);
-    psi += std::min(0.0, s(i));
   }
 #endif
+  /* a violation within the rounding errors of the evaluation of s is none */
+  for (i = 0; i < nIneqCon; i++) {
+    if (s(i) < 0.0 &&
+        -s(i) <= 100.0 * std::numeric_limits<double>::epsilon() *
+                     (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) +
+                      std::abs(ci0(i))))
+      s(i) = 0.0;
+  }
+  psi = 0.0; /* this value will contain the sum of all infeasibilities */
+  for (i = 0; i < nIneqCon; i++) psi += std::min(0.0, s(i));
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_2);
 #ifdef TRACE_SOLVER
   print_vector("s", s, nIneqCon);
@@ -962,8 +971,7 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (!is_dependent(d, iq, R_norm))  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
@@ -1035,10 +1043,11 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;  // equalities have negative indices
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0;  // look for another constraint than the one just excluded
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
-- 
2.43.0


From 57702e37b79c6b8dc609687de4f06a80fa90acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:39 +0000
Subject: [PATCH 22/38] fix: do not chase violations within rounding errors in
 the QP solver

---
 src/eiquadprog-fast.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 680251d..c9ea3c3 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -438,15 +438,22 @@ l1:
   s = ci0;
   s.noalias() += CI * x;
   iaexcl.setOnes();
-  psi = (s.cwiseMin(VectorXd::Zero(nIneqCon))).sum();
 #else
-  psi = 0.0; /* this value will contain the sum of all infeasibilities */
   for (i = 0; i < nIneqCon; i++) {
     iaexcl(i) = 1;
     s(i) = CI.row(i).dot(x) + ci0(i);
-    psi += std::min(0.0, s(i));
   }
 #endif
+  /* a violation within the rounding errors of the evaluation of s is none */
+  for (i = 0; i < nIneqCon; i++) {
+    if (s(i) < 0.0 &&
+        -s(i) <= 100.0 * std::numeric_limits<double>::epsilon() *
+                     (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) +
+                      std::abs(ci0(i))))
+      s(i) = 0.0;
+  }
+  psi = 0.0; /* this value will contain the sum of all infeasibilities */
+  for (i = 0; i < nIneqCon; i++) psi += std::min(0.0, s(i));
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_2);
 #ifdef TRACE_SOLVER
   print_vector("s", s, nIneqCon);
-- 
2.43.0


From b2b59da2a90176533b685b9359ac8cec27829d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 23/38] fix: minimize along -g when the inverse of the Hessian
 factor is provided

---
 src/eiquadprog-fast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index c9ea3c3..d21bc3f 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -305,6 +305,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
@@ -735,6 +738,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
     x = m_J * (m_J.transpose() * g0);
+#ifdef OPTIMIZE_UNCONSTR_MINIM
+    x = -x;
+#endif
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
-- 
2.43.0


From 0185b495f387c897d0f7bb2415a60337d3e21262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 24/38] fix: use the factor of the Hessian in the sparse QP
 solver

---
 src/eiquadprog-fast.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index d21bc3f..8bcf9b6 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -702,7 +702,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // without permutation, as matrixU() is used as the factor of Hess itself
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -716,11 +718,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   if (!is_inverse_provided_) {
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
-#ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
-#else
-    m_J = cholsp_.matrixU().solve(m_J);
-#endif
+    cholsp_.matrixU().solveInPlace(m_J);
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
   }
 
-- 
2.43.0


From 2cf93b2f0c5639bb2446ade992cd0b63decd4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 25/38] fix: accept linear problems without constraint rows

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index cc67547..656034d 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -61,7 +61,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
-- 
2.43.0


From e459893f4bfa5de668e4480f0cde7487536856b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 26/38] fix: accept equal bounds with GLPK

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 656034d..89d376a 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -28,7 +28,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = (mibV == mabV) ? GLP_FX : GLP_DB;  // GLPK rejects DB if lb == ub
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From ae4aab1454f706929ba2b92c02c76a7fc5d2d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 27/38] fix: ignore the unbounded elements of the bounds of a
 QP

---
 src/solver-abstract.cpp | 47 ++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 88061f2..8641ca5 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -24,6 +24,7 @@
 #include <Eigen/Sparse>
 #include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
 #include <stdexcept>
+#include <vector>
 
 namespace solvers {
 
@@ -38,34 +39,26 @@ typedef Eigen::SparseVector<double> SpVec;
 typedef Eigen::SparseVector<int> SpVeci;
 
 namespace {
-void addConstraintMinBoundQuadProg(solvers::Cref_vectorX minBounds,
-                                   std::pair<MatrixXd, VectorXd>& data) {
-  if (minBounds.size() == 0) return;
-  MatrixXd& res = data.first;
-  VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols(), res.cols());
-  VectorXd d(resv.rows() + res.cols());
-  D.block(0, 0, res.rows(), res.cols()) = res;
-  D.block(res.rows(), 0, res.cols(), res.cols()) =
-      (-1.) * MatrixXd::Identity(res.cols(), res.cols());
-  d.head(resv.size()) = resv;
-  d.tail(res.cols()) = -minBounds;
-  data.first = D;
-  data.second = d;
-}
-
-void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
-                                   std::pair<MatrixXd, VectorXd>& data) {
-  if (maxBounds.size() == 0) return;
+// add the constraints sign * x(i) <= sign * bounds(i), for the bounded elements
+void addConstraintBoundQuadProg(solvers::Cref_vectorX bounds, const double sign,
+                                std::pair<MatrixXd, VectorXd>& data) {
+  std::vector<int> bounded;
+  for (int i = 0; i < (int)bounds.size(); ++i) {
+    if (sign < 0 ? bounds(i) > UNBOUNDED_DOWN : bounds(i) < UNBOUNDED_UP)
+      bounded.push_back(i);
+  }
+  if (bounded.empty()) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols(), res.cols());
-  VectorXd d(resv.rows() + res.cols());
-  D.block(0, 0, res.rows(), res.cols()) = res;
-  D.block(res.rows(), 0, res.cols(), res.cols()) =
-      MatrixXd::Identity(res.cols(), res.cols());
+  MatrixXd D(res.rows() + (int)bounded.size(), res.cols());
+  VectorXd d(resv.rows() + (int)bounded.size());
+  D.topRows(res.rows()) = res;
+  D.bottomRows(bounded.size()).setZero();
   d.head(resv.size()) = resv;
-  d.tail(res.cols()) = maxBounds;
+  for (int i = 0; i < (int)bounded.size(); ++i) {
+    D(res.rows() + i, bounded[i]) = sign;
+    d(resv.size() + i) = sign * bounds(bounded[i]);
+  }
   data.first = D;
   data.second = d;
 }
@@ -76,8 +69,8 @@ std::pair<MatrixXd, VectorXd> addBoundaryConstraintsQuadProg(
   std::pair<MatrixXd, VectorXd> data;
   data.first = CI;
   data.second = ci0;
-  addConstraintMinBoundQuadProg(minBounds, data);
-  addConstraintMaxBoundQuadProg(maxBounds, data);
+  addConstraintBoundQuadProg(minBounds, -1., data);
+  addConstraintBoundQuadProg(maxBounds, 1., data);
   return data;
 }
 }  // namespace
-- 
2.43.0


From c721384ef0f17aff017d6346aa404921abc9f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:25 +0000
Subject: [PATCH 28/38] fix: implement the velocity, acceleration and jerk of
 the x5 curve

---
 ...points_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh | 180 +++++-------------
 1 file changed, 47 insertions(+), 133 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 5b6b635..1ee13fd 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -86,151 +86,65 @@ inline waypoint_t evaluateCurveWaypointAtTime(const std::vector<point_t>& pi,
   return wp;
 }
 
-// TODO
+/**
+ * @brief evaluateDerivativeAtTime compute the expression of a derivative of the
+ * curve with respect to the normalized time, from its control points
+ * @param pi constant waypoints of the curve
+ * @param order order of the derivative
+ * @param t param (normalized !)
+ */
+inline waypoint_t evaluateDerivativeAtTime(const std::vector<point_t>& pi,
+                                           int order, double t) {
+  assert(pi.size() == 13);
+  std::vector<waypoint_t> wps;
+  for (std::size_t i = 0; i < pi.size(); ++i) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    if (i >= 4 && i <= 8)
+      w.first.block<3, 3>(0, 3 * (i - 4)) = Matrix3::Identity();
+    else
+      w.second = pi[i];
+    wps.push_back(w);
+  }
+  // control points of the derivative
+  for (; order > 0; --order) {
+    const double n = (double)(wps.size() - 1);
+    for (std::size_t i = 0; i + 1 < wps.size(); ++i) {
+      wps[i].first = n * (wps[i + 1].first - wps[i].first);
+      wps[i].second = n * (wps[i + 1].second - wps[i].second);
+    }
+    wps.pop_back();
+  }
+  // De Casteljau
+  for (; wps.size() > 1; wps.pop_back()) {
+    for (std::size_t i = 0; i + 1 < wps.size(); ++i) {
+      wps[i].first = (1. - t) * wps[i].first + t * wps[i + 1].first;
+      wps[i].second = (1. - t) * wps[i].second + t * wps[i + 1].second;
+    }
+  }
+  return wps[0];
+}
+
 inline waypoint_t evaluateVelocityCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  const double t9 = t8 * t;
-
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) = Matrix3::Identity() * alpha;   // x0
-  wp.first.block<3, 3>(0, 3) = Matrix3::Identity() * alpha;   // x1
-  wp.first.block<3, 3>(0, 6) = Matrix3::Identity() * alpha;   // x2
-  wp.first.block<3, 3>(0, 9) = Matrix3::Identity() * alpha;   // x3
-  wp.first.block<3, 3>(0, 12) = Matrix3::Identity() * alpha;  // x4
-
-  wp.second =
-      (1.0 * (-10.0 * pi[0] + 10.0 * pi[1]) +
-       t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
-       t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
-                    360.0 * pi[3])) +
-       t3 * (1.0 *
-             (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
-              3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
-                    3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
-                    450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
-                    450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
-                    12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
-                    25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
-                    29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
-                    20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
-      alpha;
+  waypoint_t wp = evaluateDerivativeAtTime(pi, 1, t);
+  wp.first /= T;
+  wp.second /= T;
   return wp;
 }
 
-// TODO
 inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 90720.0 * t7 + 176400.0 * t6 - 176400.0 * t5 +
-              94500.0 * t4 - 25200.0 * t3 + 2520.0 * t2));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-22680.0 * t8 + 90720.0 * t7 - 141120.0 * t6 + 105840.0 * t5 -
-              37800.0 * t4 + 5040.0 * t3));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 60480.0 * t7 + 70560.0 * t6 - 35280.0 * t5 +
-              6300.0 * t4));  // x2
-  wp.second =
-      (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2]) +
-       t * (1.0 * (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] +
-                   720.0 * pi[3])) +
-       t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
-                    10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
-                    4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
-                    4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
-                    50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
-                    126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
-                    176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
-                    141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
-                    60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
-                    720.0 * pi[9]))) *
-      alpha;
+  waypoint_t wp = evaluateDerivativeAtTime(pi, 2, t);
+  wp.first /= T * T;
+  wp.second /= T * T;
   return wp;
 }
 
-// TODO
 inline waypoint_t evaluateJerkCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 635040.0 * t6 + 1058400.0 * t5 - 882000.0 * t4 +
-              378000.0 * t3 - 75600.0 * t2 + 5040.0 * t));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-181440.0 * t7 + 635040.0 * t6 - 846720.0 * t5 + 529200.0 * t4 -
-              151200.0 * t3 + 15120.0 * t2));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 423360.0 * t6 + 423360.0 * t5 - 176400.0 * t4 +
-              25200.0 * t3));  // x2
-  wp.second =
-      (1.0 *
-           (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] + 720.0 * pi[3]) +
-       t * (1.0 * (5040.0 * pi[0] - 20160.0 * pi[1] + 30240.0 * pi[2] -
-                   20160.0 * pi[3])) +
-       t2 * (1.0 * (-15120.0 * pi[0] + 75600.0 * pi[1] - 151200.0 * pi[2] +
-                    151200.0 * pi[3])) +
-       t3 * (1.0 * (25200.0 * pi[0] - 151200.0 * pi[1] + 378000.0 * pi[2] -
-                    504000.0 * pi[3])) +
-       t4 * (1.0 * (-25200.0 * pi[0] + 176400.0 * pi[1] - 529200.0 * pi[2] +
-                    882000.0 * pi[3] + 25200.0 * pi[7])) +
-       t5 * (1.0 * (15120.0 * pi[0] - 120960.0 * pi[1] + 423360.0 * pi[2] -
-                    846720.0 * pi[3] - 120960.0 * pi[7] + 15120.0 * pi[8])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +
-                    423360.0 * pi[3] + 181440.0 * pi[7] - 45360.0 * pi[8] +
-                    5040.0 * pi[9])) +
-       t7 * (1.0 * (720.0 * pi[0] + 720.0 * pi[10] - 7200.0 * pi[1] +
-                    32400.0 * pi[2] - 86400.0 * pi[3] - 86400.0 * pi[7] +
-                    32400.0 * pi[8] - 7200.0 * pi[9]))) *
-      alpha;
+  waypoint_t wp = evaluateDerivativeAtTime(pi, 3, t);
+  wp.first /= T * T * T;
+  wp.second /= T * T * T;
   return wp;
 }
 
-- 
2.43.0


From 9d70412e73ca8d32b39ab968bd46e49fe0771d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 29/38] fix: keep the cross terms of the sampled velocity cost

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 8c95fe4..221bb3e 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -291,14 +291,8 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 613e85b4a1abc507dff820575aa8944cfc9077df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 30/38] fix: initialize the guess of the end effector problem

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 221bb3e..7161f77 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -436,7 +436,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
     std::cout << "Dim b   = " << Ab.first.rows() << std::endl;
   }
 
-  VectorX init = VectorX(dimVar(pData));
+  VectorX init = VectorX::Zero(dimVar(pData));
   // init = (pData.c0_ + pData.c1_)/2.;
   // init =pData.c0_;
   if (verbose)
-- 
2.43.0


From eccad95164a2690b5d3bb5aa038046357ee035eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 31/38] fix: copy the contact phase when a ContactData is
 assigned

---
 include/hpp/bezier-com-traj/data.hh | 15 +++++++++++++++
 src/computeCOMTraj.cpp              |  3 +--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index a71bdb7..09a5da9 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -42,6 +42,21 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         Ang_(other.Ang_),
         ang_(other.ang_) {}
 
+  // as for the copy constructor, the contact phase is copied
+  ContactData& operator=(const ContactData& other) {
+    if (this != &other) {
+      contactPhase_ =
+          other.contactPhase_
+              ? new centroidal_dynamics::Equilibrium(*(other.contactPhase_))
+              : 0;
+      Kin_ = other.Kin_;
+      kin_ = other.kin_;
+      Ang_ = other.Ang_;
+      ang_ = other.ang_;
+    }
+    return *this;
+  }
+
   ContactData(centroidal_dynamics::Equilibrium* contactPhase)
       : contactPhase_(contactPhase),
         Kin_(Eigen::Matrix3d::Zero()),
diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index a6e1aaa..601d737 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -436,7 +436,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   d = VectorX::Zero(num_eq);
 
   double current_t = 0.;
-  ContactData phase;
   int size_kin;
   MatrixXX mH;
   VectorX h;
@@ -452,7 +451,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
     current_t += Ts[id_phase];
 
-    phase = pData.contacts_[id_phase];
+    const ContactData& phase = pData.contacts_[id_phase];
 
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
-- 
2.43.0


From 8f20b53b7f5421da7167ddfbbff4141ffd51bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 32/38] fix: reject zero step requests without exactly one
 contact phase

---
 src/solve_0_step.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e9a3b64..931afdf 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -232,8 +232,12 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
                              const std::vector<double>& Ts,
                              const double timeStep) {
   assert(pData.representation_ == DOUBLE_DESCRIPTION);
-  assert(pData.contacts_.size() == 1);
-  assert(Ts.size() == pData.contacts_.size());
+  if (pData.contacts_.size() != 1)
+    throw std::runtime_error("Exactly one contact phase is required");
+  if (Ts.size() != pData.contacts_.size())
+    throw std::runtime_error(
+        "Time phase vector has different size than the number of contact "
+        "phases");
   bool fail = true;
   std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(
       pData.contacts_.front(), pData.c0_, pData.dc0_, pData.l0_,
-- 
2.43.0


From 8c34158e4f6641c1b840095613170bd7536cac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 33/38] fix: keep the phases of a continuous plan within its
 duration

---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 601d737..1e531b8 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -446,10 +446,12 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
   for (size_t id_phase = 0; id_phase < (size_t)Ts.size(); ++id_phase) {
-    bezier_wp_t cs = c.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ddcs = ddc.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
-    current_t += Ts[id_phase];
+    // rounding errors must not move the end of a phase after T
+    const double end_t = std::min(current_t + Ts[id_phase], T);
+    bezier_wp_t cs = c.extract(current_t, end_t);
+    bezier_wp_t ddcs = ddc.extract(current_t, end_t);
+    bezier_wp_t ws = w.extract(current_t, end_t);
+    current_t = end_t;
 
     const ContactData& phase = pData.contacts_[id_phase];
 
-- 
2.43.0


From 06424f07b3ee57488d67cdfdc7fd3bc592ededf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 34/38] fix: scale the iteration limit of the QP solver with
 the problem

---
 src/solver-abstract.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 8641ca5..c126c7e 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -22,6 +22,7 @@
 #include <hpp/bezier-com-traj/solver/glpk-wrapper.hpp>
 #endif
 #include <Eigen/Sparse>
+#include <algorithm>
 #include <hpp/bezier-com-traj/solver/eiquadprog-fast.hpp>
 #include <stdexcept>
 #include <vector>
@@ -104,6 +105,10 @@ ResultData solve(const MatrixXd& A, const VectorXd& b, const MatrixXd& D,
         VectorXd ce0 = -d;
         tsid::solvers::EiquadprogFast QPsolver =
             tsid::solvers::EiquadprogFast();
+        // the number of iterations that are needed grows with the problem
+        QPsolver.setMaxIter(
+            std::max(QPsolver.getMaxIter(),
+                     10 * (int)(g.size() + ce0.size() + CIp.second.size())));
         tsid::solvers::EiquadprogFast_status status;
         // if(solver == SOLVER_QUADPROG)
         status = QPsolver.solve_quadprog(Hess, g, D, ce0, -CIp.first,
-- 
2.43.0


From 5927fee950db2ee1f48a1cec9e5d675dd02b13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 35/38] fix: accept contact phases without kinematic limits in
 a debug build

The assertions of Eigen reject the assignment of the product of the default
3x3 matrix to an empty block.
---
 src/computeCOMTraj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index 1e531b8..e5e3cce 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -458,7 +458,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
-         wpit != cs.waypoints().end(); ++wpit) {
+         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
       b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
       id_rows += size_kin;
-- 
2.43.0


From 8bdcddd989a9e7876851ffbb027b6da4ac2eac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 36/38] fix: keep a Python problem alive as long as its
 constraints are referred to

---
 python/bezier_com_traj.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index dff09bd..c795438 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -388,8 +388,7 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
                     &set_GIWC_representation_)
       .add_property(
           "constraints_",
-          make_function(&get_constraints_,
-                        return_value_policy<reference_existing_object>()),
+          make_function(&get_constraints_, return_internal_reference<>()),
           &set_constraints_)
       .def("clearContacts", clearContacts)
       .def("addContact", addContact);
-- 
2.43.0


From 3e73ec13783dd19e78e7c33ba0f9688fe389ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 37/38] fix: keep the contact phase of a Python contact
 description alive

---
 python/bezier_com_traj.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index c795438..e6d1ebe 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -366,9 +366,8 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
           centroidal_dynamics::Equilibrium*>()[with_custodian_and_ward<1, 2>()])
       .add_property(
           "contactPhase_",
-          make_function(&getContactPhase_,
-                        return_value_policy<reference_existing_object>()),
-          &setContactPhase_)
+          make_function(&getContactPhase_, return_internal_reference<>()),
+          make_function(&setContactPhase_, with_custodian_and_ward<1, 2>()))
       .add_property("Kin_", &get_Kin)
       .add_property("Ang_", &get_Ang)
       .def("setKinematicConstraints", &set_Kin)
-- 
2.43.0


From 1638a15937cae5b59bc8ec68d71c68f5ec2fe5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 38/38] fix: do not take a violated constraint of a QP for a
 rounding error

The violation accepted by the solver grows with the number of variables and
the conditioning of the Hessian: the force formulation returned solutions
that violate constraints well above the precision of the variables.
---
 src/eiquadprog-fast.cpp | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 8bcf9b6..c503228 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -248,6 +248,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
   int ip;         // index of the chosen violated constraint
   int iq;         // current number of active constraints
   double psi;     // current sum of constraint violations
+  bool significant;  // whether a violation exceeds the precision of x
   double c1;      // Hessian trace
   double c2;      // Hessian Chowlesky factor trace
   double ss;      // largest constraint violation (negative for violation)
@@ -320,6 +321,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
+  /* the rounding errors on x are relative to the largest value it takes */
+  double x_size = x.lpNorm<Eigen::Infinity>();
 #ifdef TRACE_SOLVER
   std::cout << "Unconstrained solution: " << f_value << std::endl;
   print_vector("x", x, nVars);
@@ -448,12 +451,18 @@ l1:
   }
 #endif
   /* a violation within the rounding errors of the evaluation of s is none */
+  significant = false;
+  x_size = std::max(x_size, x.lpNorm<Eigen::Infinity>());
   for (i = 0; i < nIneqCon; i++) {
-    if (s(i) < 0.0 &&
-        -s(i) <= 100.0 * std::numeric_limits<double>::epsilon() *
-                     (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) +
-                      std::abs(ci0(i))))
-      s(i) = 0.0;
+    if (s(i) < 0.0) {
+      const double terms =
+          CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i));
+      if (-s(i) <= 100.0 * std::numeric_limits<double>::epsilon() * terms)
+        s(i) = 0.0;
+      else if (-s(i) > 1e6 * std::numeric_limits<double>::epsilon() *
+                           (CI.row(i).lpNorm<1>() * x_size + std::abs(ci0(i))))
+        significant = true;
+    }
   }
   psi = 0.0; /* this value will contain the sum of all infeasibilities */
   for (i = 0; i < nIneqCon; i++) psi += std::min(0.0, s(i));
@@ -464,7 +473,8 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
+  if (!significant &&
+      std::abs(psi) <=
       nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
@@ -684,6 +694,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   int ip;         // index of the chosen violated constraint
   int iq;         // current number of active constraints
   double psi;     // current sum of constraint violations
+  bool significant;  // whether a violation exceeds the precision of x
   double c1;      // Hessian trace
   double c2;      // Hessian Chowlesky factor trace
   double ss;      // largest constraint violation (negative for violation)
@@ -751,6 +762,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
+  /* the rounding errors on x are relative to the largest value it takes */
+  double x_size = x.lpNorm<Eigen::Infinity>();
 #ifdef TRACE_SOLVER
   std::cout << "Unconstrained solution: " << f_value << std::endl;
   print_vector("x", x, nVars);
@@ -879,12 +892,18 @@ l1:
   }
 #endif
   /* a violation within the rounding errors of the evaluation of s is none */
+  significant = false;
+  x_size = std::max(x_size, x.lpNorm<Eigen::Infinity>());
   for (i = 0; i < nIneqCon; i++) {
-    if (s(i) < 0.0 &&
-        -s(i) <= 100.0 * std::numeric_limits<double>::epsilon() *
-                     (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) +
-                      std::abs(ci0(i))))
-      s(i) = 0.0;
+    if (s(i) < 0.0) {
+      const double terms =
+          CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i));
+      if (-s(i) <= 100.0 * std::numeric_limits<double>::epsilon() * terms)
+        s(i) = 0.0;
+      else if (-s(i) > 1e6 * std::numeric_limits<double>::epsilon() *
+                           (CI.row(i).lpNorm<1>() * x_size + std::abs(ci0(i))))
+        significant = true;
+    }
   }
   psi = 0.0; /* this value will contain the sum of all infeasibilities */
   for (i = 0; i < nIneqCon; i++) psi += std::min(0.0, s(i));
@@ -895,7 +914,8 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
+  if (!significant &&
+      std::abs(psi) <=
       nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
-- 
2.43.0


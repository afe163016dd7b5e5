From 15bb625296a527bbcb42476d62320eafe353f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 01/35] fix: State::ToVector drops the biases of an IMU that is
 only intrinsically calibrated

The condition tested GetIsExtrinsic() twice, so such an IMU contributed nothing
and every following block was shifted.
---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..965a72a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 77f02b6573bfabeb463aa4258c1aca7b56d93bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 02/35] fix: State::GetStateSize counts clone lists instead of
 clones

aug_states maps a camera to its list of clones; every clone takes
g_aug_state_size elements of the state vector.
---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 965a72a..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From 70b60a6ede0190079d6b3b3e2811c5fd648238e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 03/35] fix: State::SetState ignores the clones

ToVector() writes them after the fiducials, so SetState(ToVector()) did not
restore the state it came from.
---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..d0e515c 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -381,6 +381,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From e4de2271ab9b4452b2121b23d7e64f4f0936ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:51 +0000
Subject: [PATCH 04/35] fix: camera map += vector applies the first camera's
 correction to every camera

The index was never advanced and cameras that are not calibrated were corrected too.
---
 src/ekf/types.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index d0e515c..994679a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -195,9 +195,12 @@ std::map<unsigned int, CamState> & operator+=(
   unsigned int idx {0};
   for (auto & cam_iter : l_cam_state) {
     unsigned int cam_id = cam_iter.first;
-    l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
-    l_cam_state[cam_id].ang_c_to_b =
-      l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    if (l_cam_state[cam_id].GetIsExtrinsic()) {
+      l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
+      l_cam_state[cam_id].ang_c_to_b =
+        l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+      idx += g_cam_extrinsic_state_size;
+    }
   }
 
   return l_cam_state;
-- 
2.43.0


From 23ef36483e045bbf83173e4135df1190b84a0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 05/35] fix: a registered sensor's covariance is inserted where
 its state is not

States are laid out in identifier order and before the clones, but the initial
covariance went to the end of its group (fiducials: to the end of the matrix).
Registering a lower identifier later, or a fiducial while clones exist, gave the
variances of one quantity to another. Insert the block at the sensor's own index.
---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..f6114f7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From 8b67f9417621fae835b15edfa8d0ad4fbcbe2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 06/35] fix: root-form filter takes initial sensor variances as
 standard deviations

The body block is converted with cwiseSqrt() in the constructor, the blocks of
registered sensors were not, so their variances were squared.
---
 src/ekf/ekf.cpp | 20 ++++++++++++++++----
 src/ekf/ekf.hpp |  7 +++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f6114f7..a3296bd 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -249,6 +249,14 @@ void EKF::Initialize(double initial_time, const BodyState & body_state_init)
   m_state.body_state = body_state_init;
 }
 
+Eigen::MatrixXd EKF::InitialCovariance(const Eigen::MatrixXd & covariance) const
+{
+  if (m_use_root_covariance) {
+    return covariance.cwiseSqrt();
+  }
+  return covariance;
+}
+
 void EKF::RegisterIMU(
   unsigned int imu_id,
   const ImuState & imu_state,
@@ -277,7 +285,8 @@ void EKF::RegisterIMU(
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
     m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+      InitialCovariance(covariance.block(0, 0, imu_state.size, imu_state.size)), m_cov,
+      imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -309,7 +318,8 @@ void EKF::RegisterGPS(
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
     m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+      InitialCovariance(covariance.block(0, 0, gps_state.size, gps_state.size)), m_cov,
+      gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -349,7 +359,8 @@ void EKF::RegisterCamera(
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
     m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+      InitialCovariance(covariance.block(0, 0, cam_state.size, cam_state.size)), m_cov,
+      cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -378,7 +389,8 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
     m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+      InitialCovariance(covariance.block(0, 0, fid_state.size, fid_state.size)), m_cov,
+      fid_index, fid_index);
   }
 
   std::stringstream log_msg;
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..a1b3b02 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -394,6 +394,13 @@ public:
   Eigen::MatrixXd m_cov = Eigen::MatrixXd::Identity(g_body_state_size, g_body_state_size) * 1e-2;
 
 private:
+  ///
+  /// @brief Form in which an initial sensor covariance is kept in the filter covariance
+  /// @param covariance Diagonal initial covariance
+  /// @return Covariance, or its root when the root form is used
+  ///
+  Eigen::MatrixXd InitialCovariance(const Eigen::MatrixXd & covariance) const;
+
   unsigned int m_state_size{g_body_state_size};
   unsigned int m_imu_state_size{0};
   unsigned int m_gps_state_size{0};
-- 
2.43.0


From aab808c06b56bd3ce1c0b6a939cddd2d14b7aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 07/35] fix: root-form prediction distorts the body-to-sensor
 covariance

With P = S^T S the predicted root is S F^T; F acts on the body columns only, so the
columns of the other states must stay as they are.
---
 src/ekf/ekf.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index a3296bd..7061d90 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -160,9 +160,6 @@ void EKF::PredictModel(double local_time)
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
         m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
 
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
-
       m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
     } else {
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
-- 
2.43.0


From 9e0a69a028e2c2def5f5fcf922b5a5bba7de6d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 08/35] fix: stationary IMU update corrects the IMU position
 with an attitude error

The derivative with respect to the IMU orientation belongs to the orientation
columns, three after the start of the extrinsic block.
---
 src/ekf/update/imu_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..e218751 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -168,7 +168,7 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From f3d8ecb40cd42741da9a5c54d694e6b50aa10048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 09/35] fix: stationary IMU rows log squared variances

The diagonal is only to be squared when the filter keeps the root of the covariance,
as in every other log.
---
 src/ekf/update/imu_updater.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index e218751..5cb59b6 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -277,13 +277,19 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    if (ekf.GetUseRootCovariance()) {
+      ex_diag = ex_diag.cwiseProduct(ex_diag);
+    }
+    msg << VectorToCommaString(ex_diag);
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
     Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    if (ekf.GetUseRootCovariance()) {
+      in_diag = in_diag.cwiseProduct(in_diag);
+    }
+    msg << VectorToCommaString(in_diag);
   }
 
   msg << VectorToCommaString(acceleration);
-- 
2.43.0


From c34cb288e1bfb1d153df644628c7a350284186cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 10/35] fix: motion detection uses the covariance root as the
 covariance

In root form the covariance is m_cov^T * m_cov.
---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 5cb59b6..37b00eb 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd covariance = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    covariance = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * covariance * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From d712d5621ca75eeeb1ddb08b4003609b2acf44e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 11/35] fix: Distort uses the first radial coefficient for the
 fourth-order term

DistortionJacobian and the documentation use k_2.
---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..5e5620f 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -236,10 +236,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
-- 
2.43.0


From a9247033d2fa1c45cf8112c2cf5a2f2bc8833385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 12/35] fix: ApplyLeftNullspace does not project onto the left
 nullspace

H_f = Q * [R; 0], so the left nullspace is spanned by the last columns of Q; the code
took its last rows and left the feature error in the residual.
---
 src/utility/math_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..b4a0cb2 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,8 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null =
+    Q_decomp.block(0, H_f.cols(), H_f.rows(), H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From e67170fe1fe8d4e0404e61c61e8b37c764a66579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:56 +0000
Subject: [PATCH 13/35] fix: GetAugState divides by zero at the time of the
 newest clone

A frame at the time at which the newest clone was taken gave 0/0 and a NaN pose.
---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 7061d90..6f40fb8 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -627,8 +627,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      if (m_current_time > m_state.aug_states[aug_key].back().time) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) /
+          (m_current_time - m_state.aug_states[aug_key].back().time);
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From fed39fbc5f950014d0a0e2709fe7e7a57b6f8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 14/35] fix: reading an unknown sensor's state registers it

operator[] inserted a default state, which changed the sensor count and made a later
registration with that identifier fail as a duplicate.
---
 src/ekf/ekf.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 6f40fb8..d6ffac7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -191,17 +191,20 @@ unsigned int EKF::GetStateSize() const
 
 ImuState EKF::GetImuState(unsigned int imu_id)
 {
-  return m_state.imu_states[imu_id];
+  auto imu_iter = m_state.imu_states.find(imu_id);
+  return imu_iter != m_state.imu_states.end() ? imu_iter->second : ImuState();
 }
 
 GpsState EKF::GetGpsState(unsigned int gps_id)
 {
-  return m_state.gps_states[gps_id];
+  auto gps_iter = m_state.gps_states.find(gps_id);
+  return gps_iter != m_state.gps_states.end() ? gps_iter->second : GpsState();
 }
 
 CamState EKF::GetCamState(unsigned int cam_id)
 {
-  return m_state.cam_states[cam_id];
+  auto cam_iter = m_state.cam_states.find(cam_id);
+  return cam_iter != m_state.cam_states.end() ? cam_iter->second : CamState();
 }
 
 unsigned int EKF::GetImuCount() const
-- 
2.43.0


From b87c06c4347fdc9afa14ec854a8041ac2a0d912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 15/35] fix: intrinsic-only IMU takes its bias variances from
 the position and orientation entries

The variance parameter lists position, orientation, accelerometer bias and gyroscope
bias (docs/parameters.md).
---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..018425e 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.segment<6>(6).asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From e8ab809821eba333e55377f70ff570b3b6154859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:58 +0000
Subject: [PATCH 16/35] fix: removing a clone in root form loses covariance of
 the remaining states

With P = S^T S the rows of S belonging to the clone also contribute to the columns of
the states after it. Drop the columns and triangularize again instead of deleting rows.
---
 src/ekf/ekf.cpp | 21 +++++++++++++++++++--
 src/ekf/ekf.hpp |  6 ++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index d6ffac7..be30281 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -453,6 +453,23 @@ Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned
   return out_cov;
 }
 
+void EKF::RemoveCloneFromCovariance(unsigned int index)
+{
+  if (m_use_root_covariance) {
+    // Only the columns of the clone are dropped, its rows also carry the other states
+    auto size = static_cast<unsigned int>(m_cov.cols());
+    unsigned int end = index + g_aug_state_size;
+    Eigen::MatrixXd root = Eigen::MatrixXd::Zero(size, size - g_aug_state_size);
+    root.block(0, 0, size, index) = m_cov.block(0, 0, size, index);
+    root.block(0, index, size, size - end) = m_cov.block(0, end, size, size - end);
+    m_cov = QR_r(
+      root.block(0, 0, size - g_aug_state_size, size - g_aug_state_size),
+      root.block(size - g_aug_state_size, 0, g_aug_state_size, size - g_aug_state_size));
+  } else {
+    m_cov = RemoveFromMatrix(m_cov, index, index, g_aug_state_size);
+  }
+}
+
 void EKF::AugmentStateIfNeeded()
 {
   if (
@@ -511,7 +528,7 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      RemoveCloneFromCovariance(aug_index);
 
       RefreshIndices();
     }
@@ -571,7 +588,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      RemoveCloneFromCovariance(aug_start);
     }
 
     RefreshIndices();
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index a1b3b02..fc10539 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -401,6 +401,12 @@ private:
   ///
   Eigen::MatrixXd InitialCovariance(const Eigen::MatrixXd & covariance) const;
 
+  ///
+  /// @brief Marginalize a clone out of the filter covariance
+  /// @param index Start index of the clone
+  ///
+  void RemoveCloneFromCovariance(unsigned int index);
+
   unsigned int m_state_size{g_body_state_size};
   unsigned int m_imu_state_size{0};
   unsigned int m_gps_state_size{0};
-- 
2.43.0


From 34cd9eb182cdabe99bf50f5047b552bbedd4daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:52 +0000
Subject: [PATCH 17/35] fix: predicted IMU acceleration is not rotated into the
 body frame

The documented measurement model, and the Jacobian of this updater, rotate the local
acceleration into the body frame and have no Coriolis term (the IMU is rigidly mounted).
---
 src/ekf/update/imu_updater.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 37b00eb..8a82855 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -313,7 +313,6 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
@@ -325,12 +324,10 @@ Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
   Eigen::VectorXd predicted_measurement(6);
 
   Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
+    ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l +
     ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
     ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
+    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)));
 
   Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
 
-- 
2.43.0


From 53e287143b8117408f38a36db1acdd2ab6973d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:46 +0000
Subject: [PATCH 18/35] fix: fiducial orientation residual has the wrong sign

The innovation of the orientation measurement was predicted minus measured
while the position innovation and the Jacobian are measured minus predicted,
so every fiducial update increased the orientation error.
---
 src/ekf/update/fiducial_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..5a8da45 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -168,7 +168,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From 453f45e1c338e218456c0acb838ce52aa962ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 19/35] fix: fiducial data log ignores the configured log rate

---
 src/ekf/update/fiducial_updater.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 5a8da45..49122db 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -68,6 +68,7 @@ FiducialUpdater::FiducialUpdater(
 
   m_fiducial_logger.DefineHeader(header.str());
   if (data_log_rate != 0.0) {m_fiducial_logger.EnableLogging();}
+  m_fiducial_logger.SetLogRate(data_log_rate);
 }
 
 void FiducialUpdater::RefreshStates(EKF & ekf)
-- 
2.43.0


From a14fdcf49e5ede2a25cb6e5f61e56213c26d8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 20/35] fix: rate limit of a data log is not applied when its
 first entry is at time zero

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..30d6d33 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..e2e8b36 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From f72113e4943a4cc8bb11bc80f667d50a3b87ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 21/35] fix: simulated IMU without errors leaves out its true
 bias

---
 src/sensors/sim/sim_imu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..476fcbf 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -102,6 +102,9 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     if (!m_no_errors) {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
+    } else {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
     }
 
     sim_imu_msg->acceleration_covariance = m_acc_error.cwiseProduct(m_acc_error).asDiagonal();
-- 
2.43.0


From 7147e36693e7610ed98efe4e0c8880b7d3966689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:51 +0000
Subject: [PATCH 22/35] fix: cyclic truth orientation jumps when the stationary
 time ends

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From a906fc3f9fa8ee4b46fb2039238779b036ac84bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:51 +0000
Subject: [PATCH 23/35] fix: cyclic truth angular acceleration is not the
 derivative of its angular rate

---
 .../sim/truth_engine_cyclic.cpp               | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..93e2a4b 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -178,6 +178,14 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
   if (relative_time < 0.0) {
     body_ang_acc = Eigen::Vector3d::Zero(3);
   } else {
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d dd_rpy;
     dd_rpy[0] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[0] *
       m_ang_frequency[0] * std::cos(m_ang_frequency[0] * 2 * M_PI * relative_time);
@@ -188,7 +196,19 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
 
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    // Rate of change of the Euler derivative transform
+    Eigen::Matrix3d d_transform;
+    d_transform.setZero();
+    d_transform(0, 2) = -std::cos(rpy[1]) * d_rpy[1];
+    d_transform(1, 1) = -std::sin(rpy[0]) * d_rpy[0];
+    d_transform(1, 2) = std::cos(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::sin(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+    d_transform(2, 1) = -std::cos(rpy[0]) * d_rpy[0];
+    d_transform(2, 2) = -std::sin(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::cos(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 22e615bdb9da4928ef3394838472e8cf9ddc1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:51 +0000
Subject: [PATCH 24/35] fix: smoothed truth reads past the end of its samples

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From 1d0d7e6feebfaee4352d20bf1eef558ad88c914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:51 +0000
Subject: [PATCH 25/35] fix: truth heading is undefined until it is set

---
 src/infrastructure/sim/truth_engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine.hpp b/src/infrastructure/sim/truth_engine.hpp
index 7bca862..fc676e0 100644
--- a/src/infrastructure/sim/truth_engine.hpp
+++ b/src/infrastructure/sim/truth_engine.hpp
@@ -292,7 +292,7 @@ private:
   std::map<unsigned int, cv::Point3d> m_feature_points_map;
   std::map<unsigned int, Eigen::Vector3d> m_gps_pos;
   Eigen::Vector3d m_lla_reference{0, 0, 0};
-  double m_heading;
+  double m_heading{0.0};
   double m_room_size{4};
   int m_grid_size{15};
 };
-- 
2.43.0


From 350e4a844472dab49c3bf6187b7821b75ef2f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:51 +0000
Subject: [PATCH 26/35] fix: fiducial parameters that are not set are undefined

---
 src/trackers/fiducial_tracker.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trackers/fiducial_tracker.hpp b/src/trackers/fiducial_tracker.hpp
index 524f7cd..3fde499 100644
--- a/src/trackers/fiducial_tracker.hpp
+++ b/src/trackers/fiducial_tracker.hpp
@@ -52,15 +52,15 @@ public:
   ///
   typedef struct Parameters : public Tracker::Parameters
   {
-    FiducialType detector_type;                     ///< @brief Detector type
+    FiducialType detector_type{FiducialType::ARUCO_BOARD};  ///< @brief Detector type
     unsigned int predefined_dict{0};                ///< @brief Predefined dictionary
     unsigned int squares_x {1};                     ///< @brief Number of squares in the x direction
     unsigned int squares_y {1};                     ///< @brief Number of squares in the y direction
     double square_length {1.0};                     ///< @brief Checkerboard square length
     double marker_length {1.0};                     ///< @brief Marker length
     unsigned int id{0};                             ///< @brief Initial ID
-    Eigen::Vector3d pos_f_in_l;                     ///< @brief Fiducial position
-    Eigen::Quaterniond ang_f_to_l;                  ///< @brief Fiducial orientation
+    Eigen::Vector3d pos_f_in_l{0.0, 0.0, 0.0};      ///< @brief Fiducial position
+    Eigen::Quaterniond ang_f_to_l{1, 0, 0, 0};      ///< @brief Fiducial orientation
     bool is_extrinsic{false};                       ///< @brief Perform extrinsic calibration
     Eigen::VectorXd variance {{1, 1, 1, 1, 1, 1}};  ///< @brief Fiducial marker variance
     bool is_cam_extrinsic{false};  ///< @brief Flag for extrinsic camera calibration
-- 
2.43.0


From 9a61e3c0dc474f9610c64b14beba876befbfcdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 27/35] fix: angle of a planar transformation loses its sign

affine_angle returns the rotation angle about the vertical axis, which is
used as the heading of the local frame, as a magnitude only.
---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index b4a0cb2..b997481 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -199,7 +199,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
-- 
2.43.0


From 8ab56d1661169784acb771bef38b0f6f7108cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 28/35] fix: GPS initialization does not rotate the offset of
 the local origin into the ENU frame

---
 src/ekf/ekf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index be30281..f269fd3 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -828,8 +828,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      Eigen::Vector3d delta_ref_enu = transformation.inverse().translation();
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From da763db68733c23b4c24dcc7ddd1c1f1f1867f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 29/35] fix: kabsch_2d measures baselines from the centroid of
 the other point set

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index b997481..37eff20 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -244,7 +244,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
-- 
2.43.0


From 6c2d612dd1e308a44e5834c4cac3988a392b33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 30/35] fix: kabsch_2d leaves the angular deviation undefined
 without usable baselines

---
 src/utility/math_helper.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 37eff20..41bae76 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -253,9 +253,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
-  if (sum_count != 0.0) {
-    ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
-  }
+  ang_stddev = (sum_count != 0.0) ? std::sqrt(sum_square_slopes) / sum_count : 0.0;
 
   return true;
 }
-- 
2.43.0


From 89d661ae56fd1bd9a85d07f38ebe577e61cbadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 31/35] fix: measurement compression drops non-zero rows that
 follow a zero row

---
 src/utility/math_helper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 41bae76..810a0b1 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -135,8 +135,11 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Drop trailing zero rows after compression
+    unsigned int rows = m_rows;
+    while ((rows > 0) && !(jacobian.row(rows - 1).array().abs() > 1e-9).any()) {
+      --rows;
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 312313c4df789437aebe60143cb5b57fca0f9f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:16 +0000
Subject: [PATCH 32/35] fix: lla_to_ecef returns an undefined position for
 coordinates out of range

---
 src/utility/gps_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/gps_helper.cpp b/src/utility/gps_helper.cpp
index 7653089..0926245 100644
--- a/src/utility/gps_helper.cpp
+++ b/src/utility/gps_helper.cpp
@@ -28,7 +28,7 @@ static constexpr double g_deg_to_rad = M_PI / 180.0;
 
 Eigen::Vector3d lla_to_ecef(const Eigen::Vector3d & lla)
 {
-  Eigen::Vector3d out;
+  Eigen::Vector3d out = Eigen::Vector3d::Zero();
 
   if ((lla(0) < -90.0) || (lla(0) > +90.0) || (lla(1) < -180.0) || (lla(1) > +180.0)) {
     /// @todo: Replace with logger
-- 
2.43.0


From 338070e32219fb5420deff44d2190f0c50a9394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:17 +0000
Subject: [PATCH 33/35] fix: StdToEigVec aborts for the variance lists of
 sensors

Variances of IMUs, cameras and fiducials have 12 or 6 entries, but only
lists of three were accepted.
---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 9cacee46d06abbed7097af0ec1bc5bf12690303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 34/35] fix: fiducial detections without a valid pose update
 the filter

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..07e61f4 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -165,19 +165,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 5b7f8b2905753e12e6d581935cf86b875517d857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 35/35] fix: detections of ArUco boards are never used

The list of detected corners is only filled for ChArUco boards, so that
FiducialTracker::Track drops every detection of an ArUco board.
---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 07e61f4..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


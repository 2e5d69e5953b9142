From 9d4653285bd17cbdacb1fe9a5df7d7a3f7cf6667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 01/76] fix: State::GetStateSize counts augmented states, not
 augmentation keys

---
 src/ekf/types.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..ed8eb82 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From ffea8f35dd94c464fb1b78ed9779982bfce18f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 02/76] fix: State::ToVector includes IMUs that only calibrate
 intrinsics

---
 src/ekf/types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index ed8eb82..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
-- 
2.43.0


From 41e4ec9d9260a0065a7e3cc397ed4a217d3f7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 03/76] fix: State::SetState restores augmented states

---
 src/ekf/types.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 7c12c4a..d0e515c 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -381,6 +381,14 @@ void State::SetState(const Eigen::VectorXd & state)
       idx += g_fid_extrinsic_state_size;
     }
   }
+
+  for (auto & aug_iter : aug_states) {
+    for (auto & aug_state : aug_iter.second) {
+      aug_state.pos_b_in_l = state.segment<3>(idx + 0);
+      aug_state.ang_b_to_l = RotVecToQuat(state.segment<3>(idx + 3));
+      idx += g_aug_state_size;
+    }
+  }
 }
 
 unsigned int State::GetStateSize() const
-- 
2.43.0


From 8ae2a2c9d14db2ba07b4fc48a1a7f29a2b3d2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 04/76] fix: camera map increment applies to each calibrated
 camera its own segment

---
 src/ekf/types.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index d0e515c..994679a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -195,9 +195,12 @@ std::map<unsigned int, CamState> & operator+=(
   unsigned int idx {0};
   for (auto & cam_iter : l_cam_state) {
     unsigned int cam_id = cam_iter.first;
-    l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
-    l_cam_state[cam_id].ang_c_to_b =
-      l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+    if (l_cam_state[cam_id].GetIsExtrinsic()) {
+      l_cam_state[cam_id].pos_c_in_b += r_vector.segment<3>(idx + 0);
+      l_cam_state[cam_id].ang_c_to_b =
+        l_cam_state[cam_id].ang_c_to_b * RotVecToQuat(r_vector.segment<3>(idx + 3));
+      idx += g_cam_extrinsic_state_size;
+    }
   }
 
   return l_cam_state;
-- 
2.43.0


From c6d9077831390137745240c0519b9c436986781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 05/76] fix: process noise and section starts take effect when
 set

---
 src/ekf/ekf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..fc12bd6 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -569,6 +569,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
 void EKF::SetBodyProcessNoise(const Eigen::VectorXd & process_noise)
 {
   m_body_process_noise = process_noise;
+  RefreshIndices();
 }
 
 AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double time)
-- 
2.43.0


From 0f3bcbb160ef683bf26585af03cfed62b236a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:51 +0000
Subject: [PATCH 06/76] fix: sensor covariance is registered at the sensor's
 own state index

---
 src/ekf/ekf.cpp | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index fc12bd6..9b35a12 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -262,13 +262,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -280,6 +274,12 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    unsigned int imu_index = m_state.imu_states[imu_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -298,17 +298,20 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    unsigned int gps_index = m_state.gps_states[gps_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -331,23 +334,24 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    unsigned int cam_index = m_state.cam_states[cam_id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -365,14 +369,18 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    unsigned int fid_index = m_state.fid_states[fid_state.id].index;
+    m_cov = InsertInMatrix(
+      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
-- 
2.43.0


From 994833dead3469a8eff360d8ee1ded2d66610486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 07/76] fix: registered covariances enter the square-root
 filter as square roots

---
 src/ekf/ekf.cpp             | 28 ++++++++++++++++++++--------
 src/utility/math_helper.cpp |  9 +++++++++
 src/utility/math_helper.hpp |  7 +++++++
 3 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9b35a12..3e5a680 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -276,8 +276,11 @@ void EKF::RegisterIMU(
 
   if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
     unsigned int imu_index = m_state.imu_states[imu_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_index, imu_index);
+    Eigen::MatrixXd imu_cov = covariance.block(0, 0, imu_state.size, imu_state.size);
+    if (m_use_root_covariance) {
+      imu_cov = CovarianceSquareRoot(imu_cov);
+    }
+    m_cov = InsertInMatrix(imu_cov, m_cov, imu_index, imu_index);
   }
 
   std::stringstream log_msg;
@@ -308,8 +311,11 @@ void EKF::RegisterGPS(
 
   if (gps_state.GetIsExtrinsic()) {
     unsigned int gps_index = m_state.gps_states[gps_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_index, gps_index);
+    Eigen::MatrixXd gps_cov = covariance.block(0, 0, gps_state.size, gps_state.size);
+    if (m_use_root_covariance) {
+      gps_cov = CovarianceSquareRoot(gps_cov);
+    }
+    m_cov = InsertInMatrix(gps_cov, m_cov, gps_index, gps_index);
   }
 
   std::stringstream log_msg;
@@ -348,8 +354,11 @@ void EKF::RegisterCamera(
 
   if (cam_state.GetIsExtrinsic()) {
     unsigned int cam_index = m_state.cam_states[cam_id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_index, cam_index);
+    Eigen::MatrixXd cam_cov = covariance.block(0, 0, cam_state.size, cam_state.size);
+    if (m_use_root_covariance) {
+      cam_cov = CovarianceSquareRoot(cam_cov);
+    }
+    m_cov = InsertInMatrix(cam_cov, m_cov, cam_index, cam_index);
   }
 
   std::stringstream log_msg;
@@ -377,8 +386,11 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   if (fid_state.GetIsExtrinsic()) {
     unsigned int fid_index = m_state.fid_states[fid_state.id].index;
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, fid_index, fid_index);
+    Eigen::MatrixXd fid_cov = covariance.block(0, 0, fid_state.size, fid_state.size);
+    if (m_use_root_covariance) {
+      fid_cov = CovarianceSquareRoot(fid_cov);
+    }
+    m_cov = InsertInMatrix(fid_cov, m_cov, fid_index, fid_index);
   }
 
   std::stringstream log_msg;
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..ee02eef 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -310,3 +310,12 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right
 
   return R_decomp;
 }
+
+Eigen::MatrixXd CovarianceSquareRoot(const Eigen::MatrixXd & covariance)
+{
+  Eigen::LDLT<Eigen::MatrixXd> decomposition(covariance);
+  Eigen::MatrixXd root = decomposition.matrixU();
+  root = decomposition.vectorD().cwiseMax(0.0).cwiseSqrt().asDiagonal() * root;
+  root = root * decomposition.transpositionsP();
+  return QR_r(root, Eigen::MatrixXd::Zero(0, root.cols()));
+}
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index 87950b9..fce0bf1 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -157,4 +157,11 @@ double mean_standard_deviation(const std::vector<Eigen::Vector3d> & input_vector
 ///
 Eigen::MatrixXd QR_r(const Eigen::MatrixXd & A, const Eigen::MatrixXd & B);
 
+///
+/// @brief Upper triangular square root of a covariance matrix
+/// @param covariance Covariance matrix
+/// @return Matrix S such that S^T * S is the covariance
+///
+Eigen::MatrixXd CovarianceSquareRoot(const Eigen::MatrixXd & covariance);
+
 #endif  // UTILITY__MATH_HELPER_HPP_
-- 
2.43.0


From bbe06a9ac79c2236f21f10dabaedb220670b7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 08/76] fix: square-root update accepts correlated measurement
 noise

---
 src/ekf/update/updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..796059e 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,7 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    observation_noise = CovarianceSquareRoot(measurement_noise);
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
-- 
2.43.0


From 874619c11dadaeabcbc6b75e23851e28f1317a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 09/76] fix: square-root marginalization keeps the covariance
 of the remaining states

---
 src/ekf/ekf.cpp             | 12 ++++++++++--
 src/utility/math_helper.cpp | 15 +++++++++++++++
 src/utility/math_helper.hpp | 12 ++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 3e5a680..f852b73 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -511,7 +511,11 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      if (m_use_root_covariance) {
+        m_cov = RemoveFromRootMatrix(m_cov, aug_index, g_aug_state_size);
+      } else {
+        m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      }
 
       RefreshIndices();
     }
@@ -571,7 +575,11 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      if (m_use_root_covariance) {
+        m_cov = RemoveFromRootMatrix(m_cov, aug_start, g_aug_state_size);
+      } else {
+        m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      }
     }
 
     RefreshIndices();
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index ee02eef..ad6cf93 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -319,3 +319,18 @@ Eigen::MatrixXd CovarianceSquareRoot(const Eigen::MatrixXd & covariance)
   root = root * decomposition.transpositionsP();
   return QR_r(root, Eigen::MatrixXd::Zero(0, root.cols()));
 }
+
+Eigen::MatrixXd RemoveFromRootMatrix(
+  const Eigen::MatrixXd & in_mat,
+  unsigned int col,
+  unsigned int size)
+{
+  auto in_rows = static_cast<unsigned int>(in_mat.rows());
+  auto in_cols = static_cast<unsigned int>(in_mat.cols());
+
+  Eigen::MatrixXd out_mat(in_rows, in_cols - size);
+  out_mat.leftCols(col) = in_mat.leftCols(col);
+  out_mat.rightCols(in_cols - col - size) = in_mat.rightCols(in_cols - col - size);
+
+  return QR_r(out_mat, Eigen::MatrixXd::Zero(0, in_cols - size));
+}
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index fce0bf1..64711cf 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -164,4 +164,16 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & A, const Eigen::MatrixXd & B);
 ///
 Eigen::MatrixXd CovarianceSquareRoot(const Eigen::MatrixXd & covariance);
 
+///
+/// @brief Remove states from the square root of a covariance matrix
+/// @param in_mat Square root covariance matrix
+/// @param col Index of the first state to remove
+/// @param size Number of states to remove
+/// @return Square root of the covariance of the remaining states
+///
+Eigen::MatrixXd RemoveFromRootMatrix(
+  const Eigen::MatrixXd & in_mat,
+  unsigned int col,
+  unsigned int size);
+
 #endif  // UTILITY__MATH_HELPER_HPP_
-- 
2.43.0


From 8bcdba3cce17fd5c533f932c8cdef41a43f18f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:50 +0000
Subject: [PATCH 10/76] fix: square-root prediction propagates the same
 covariance as the full form

---
 src/ekf/ekf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index f852b73..01f7cb8 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -157,13 +157,13 @@ void EKF::PredictModel(double local_time)
     unsigned int alt_size = m_state_size - g_body_state_size;
 
     if (m_use_root_covariance) {
-      m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-        m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
-
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
+      Eigen::MatrixXd noise_root = m_process_noise * std::sqrt(delta_time);
+      m_cov.leftCols<g_body_state_size>() =
+        (m_cov.leftCols<g_body_state_size>() * state_transition.transpose()).eval();
+      noise_root.leftCols<g_body_state_size>() =
+        (noise_root.leftCols<g_body_state_size>() * state_transition.transpose()).eval();
 
-      m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
+      m_cov = QR_r(m_cov, noise_root);
     } else {
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-- 
2.43.0


From f6b83ed3a1e9ef38412f125fc66a85839d82496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 11/76] fix: covariance square root undoes the pivoting of
 correlated covariances

---
 src/utility/math_helper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index ad6cf93..d8c0648 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -314,10 +314,10 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right
 Eigen::MatrixXd CovarianceSquareRoot(const Eigen::MatrixXd & covariance)
 {
   Eigen::LDLT<Eigen::MatrixXd> decomposition(covariance);
-  Eigen::MatrixXd root = decomposition.matrixU();
-  root = decomposition.vectorD().cwiseMax(0.0).cwiseSqrt().asDiagonal() * root;
-  root = root * decomposition.transpositionsP();
-  return QR_r(root, Eigen::MatrixXd::Zero(0, root.cols()));
+  Eigen::MatrixXd root = decomposition.matrixL();
+  root = root * decomposition.vectorD().cwiseMax(0.0).cwiseSqrt().asDiagonal();
+  root = (decomposition.transpositionsP().transpose() * root).eval();
+  return QR_r(root.transpose(), Eigen::MatrixXd::Zero(0, root.cols()));
 }
 
 Eigen::MatrixXd RemoveFromRootMatrix(
-- 
2.43.0


From 438e82092ceccee55f620c3423bc44b1be09e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:20 +0000
Subject: [PATCH 12/76] fix: stationary score of the square-root filter uses
 the covariance, not its root

---
 src/ekf/update/imu_updater.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..137f51e 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,13 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd covariance = ekf.m_cov;
+  if (ekf.GetUseRootCovariance()) {
+    covariance = ekf.m_cov.transpose() * ekf.m_cov;
+  }
+
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * covariance * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From 625f8909a09f2bc8cbedbcddfe5966e1971a24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 13/76] fix: left nullspace projection removes the feature
 Jacobian

---
 src/utility/math_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index d8c0648..f05c6a0 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
-- 
2.43.0


From d0e1874939c0d90bda1ac1b243dadf02f7cf5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:35 +0000
Subject: [PATCH 14/76] fix: measurement compression keeps every non-zero row

---
 src/utility/math_helper.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index f05c6a0..d9567bb 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -134,8 +134,15 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Move the non-zero rows to the top after compression
+    unsigned int rows {0};
+    for (unsigned int i = 0; i < m_rows; ++i) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {
+        jacobian.row(rows) = jacobian.row(i).eval();
+        residual(rows) = residual(i);
+        ++rows;
+      }
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 08137105159937507ff18aa0f2c5a7cec21d2539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:20 +0000
Subject: [PATCH 15/76] fix: a frame at the time of a clone made now
 interpolates to that clone

---
 src/ekf/ekf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 01f7cb8..5c06ff0 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -639,8 +639,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      if (m_current_time > m_state.aug_states[aug_key].back().time) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) /
+          (m_current_time - m_state.aug_states[aug_key].back().time);
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From 6d173b7f6ad30e05bc319cb211f55415b5fb3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:27 +0000
Subject: [PATCH 16/76] fix: feature tracks without any pose clone are ignored
 instead of read out of bounds

---
 src/ekf/update/msckf_updater.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..7e90241 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -264,6 +264,11 @@ void MsckfUpdater::UpdateEKF(
     return;
   }
 
+  if (ekf.GetAugStateSize() == 0) {
+    m_logger->Log(LogLevel::INFO, "No augmented states for MSCKF update");
+    return;
+  }
+
   if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
     m_intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
     m_pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
-- 
2.43.0


From 4389a6efccade97625c97c7320c98cd0c24b046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 17/76] fix: GPS attitude Jacobian is the derivative along the
 attitude correction

---
 src/ekf/update/gps_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..e143d60 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -68,7 +68,7 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(3, ekf.GetStateSize());
   measurement_jacobian.block<3, 3>(0, 0) = Eigen::Matrix3d::Identity(3, 3);
   measurement_jacobian.block<3, 3>(0, 9) = -ang_b_to_l.toRotationMatrix() *
-    SkewSymmetric(m_pos_a_in_b) * QuaternionJacobian(ang_b_to_l);
+    SkewSymmetric(m_pos_a_in_b);
 
   if (m_is_extrinsic) {
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-- 
2.43.0


From 064e9e4cc23bef433bd89ec783c94c540ca4d8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 18/76] fix: fiducial residual sign and Jacobian match the
 measurement and the correction

---
 src/ekf/update/fiducial_updater.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..ede5c6b 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -97,30 +97,26 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
   jacobian.block<3, 3>(0, 0) = -rot_l_to_c;
 
-  jacobian.block<3, 3>(0, 9) = rot_l_to_c *
-    SkewSymmetric(m_pos_f_in_l - pos_b_in_l) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(0, 9) = rot_b_to_c *
+    SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l));
 
-  jacobian.block<3, 3>(3, 9) = -rot_l_to_c * rot_f_to_l *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(3, 9) = -rot_b_to_c;
 
   /// @todo Test camera calibration jacobians
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
     jacobian.block<3, 3>(0, cam_index + 0) = -rot_b_to_c;
 
-    jacobian.block<3, 3>(0, cam_index + 3) = rot_b_to_c *
-      SkewSymmetric(rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b) *
-      QuaternionJacobian(m_ang_c_to_b).transpose();
+    jacobian.block<3, 3>(0, cam_index + 3) = SkewSymmetric(
+      rot_b_to_c * (rot_l_to_b * (m_pos_f_in_l - pos_b_in_l) - m_pos_c_in_b));
 
-    jacobian.block<3, 3>(3, cam_index + 3) = -rot_b_to_c *
-      QuaternionJacobian(m_ang_c_to_b).transpose() * rot_l_to_b * rot_f_to_l;
+    jacobian.block<3, 3>(3, cam_index + 3) = -Eigen::Matrix3d::Identity();
   }
 
   if (m_is_fid_extrinsic) {
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    jacobian.block<3, 3>(0, fid_index + 0) = Eigen::Matrix3d::Identity();
-    jacobian.block<3, 3>(3, fid_index + 3) = Eigen::Matrix3d::Identity();
+    jacobian.block<3, 3>(0, fid_index + 0) = rot_l_to_c;
+    jacobian.block<3, 3>(3, fid_index + 3) = rot_l_to_c * rot_f_to_l;
   }
 
   return jacobian;
@@ -168,7 +164,7 @@ void FiducialUpdater::UpdateEKF(
   // Residuals for this frame
   Eigen::VectorXd res = Eigen::VectorXd::Zero(g_fid_measurement_size);
   res.segment<3>(0) = pos_measured - pred_meas.segment<3>(0);
-  res.segment<3>(3) = QuatToRotVec(RotVecToQuat(pred_meas.segment<3>(3)) * ang_measured.inverse());
+  res.segment<3>(3) = QuatToRotVec(ang_measured * RotVecToQuat(pred_meas.segment<3>(3)).inverse());
 
   Eigen::MatrixXd jacobian = GetMeasurementJacobian(ekf);
 
-- 
2.43.0


From 178776829296996106dd031b03aa09c10a21a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 19/76] fix: stationary Jacobian acts on attitude and IMU
 orientation, not IMU position

---
 src/ekf/update/imu_updater.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 137f51e..6ad9925 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -161,14 +161,12 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
 
-  jacobian.block<3, 3>(
-    0,
-    9) = -SkewSymmetric(ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity) *
-    QuaternionJacobian(ang_b_to_l).transpose();
+  jacobian.block<3, 3>(0, 9) = -ang_i_to_b.inverse().toRotationMatrix() *
+    SkewSymmetric(ang_b_to_l.inverse() * g_gravity);
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From 5512237d94b48962efa291a3d427a180091731ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 20/76] fix: feature Jacobian is the derivative along the
 attitude corrections

---
 src/ekf/update/msckf_updater.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 7e90241..ee6d139 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -348,14 +348,11 @@ void MsckfUpdater::UpdateEKF(
       // Augmented state Jacobian
       Eigen::MatrixXd H_t = Eigen::MatrixXd::Zero(3, g_aug_state_size);
       H_t.block<3, 3>(0, 0) = -rot_l_to_ci;
-      H_t.block<3, 3>(0, 3) = rot_l_to_ci * SkewSymmetric(pos_f_in_l - pos_bi_in_l) *
-        QuaternionJacobian(aug_state_i.ang_b_to_l).transpose();
+      H_t.block<3, 3>(0, 3) = rot_b_to_ci * SkewSymmetric(pos_f_in_bi);
 
       if (m_is_cam_extrinsic) {
         H_c.block<2, 3>(2 * i, cam_index + 0) = -H_d * H_p * rot_b_to_ci;
-        H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * rot_b_to_ci *
-          SkewSymmetric(rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l) - m_pos_c_in_b) *
-          QuaternionJacobian(m_ang_c_to_b).transpose();
+        H_c.block<2, 3>(2 * i, cam_index + 3) = H_d * H_p * SkewSymmetric(pos_f_in_ci);
       }
 
       if (aug_state_i.alpha != 0.0) {
-- 
2.43.0


From cd69bb65eb11b7ff4c3fbd9c157ef9999ea18925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 21/76] fix: features without a known true position are
 triangulated

---
 src/ekf/types.hpp                | 5 ++++-
 src/ekf/update/msckf_updater.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ekf/types.hpp b/src/ekf/types.hpp
index fbb7f43..6069bde 100644
--- a/src/ekf/types.hpp
+++ b/src/ekf/types.hpp
@@ -18,6 +18,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <limits>
 #include <map>
 #include <vector>
 
@@ -290,7 +291,9 @@ typedef struct FeatureTrack
 {
   std::vector<FeaturePoint> track;        ///< @brief Vector of tracked feature keypoints
   /// @todo: Remove true feature position once MSCKF complete
-  Eigen::Vector3d true_feature_position;  ///< @brief True feature position (sim only)
+  /// @brief True feature position (sim only, not finite when unknown)
+  Eigen::Vector3d true_feature_position{
+    Eigen::Vector3d::Constant(std::numeric_limits<double>::quiet_NaN())};
 } FeatureTrack;
 
 ///
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index ee6d139..e1bb8e0 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -76,7 +76,10 @@ bool MsckfUpdater::TriangulateFeature(
 )
 {
   /// @todo: Need to continue debugging the triangulated features
-  if (m_use_true_triangulation) {
+  // The true position is only known in simulation
+  const bool use_true_triangulation =
+    m_use_true_triangulation && feature_track.true_feature_position.allFinite();
+  if (use_true_triangulation) {
     pos_f_in_l = feature_track.true_feature_position;
   }
 
@@ -135,7 +138,7 @@ bool MsckfUpdater::TriangulateFeature(
     m_logger->Log(LogLevel::INFO, err_msg.str());
     pos_f_in_l_tri = Eigen::Vector3d::Zero();
     /// @todo: Add input flag
-    if (m_use_true_triangulation) {
+    if (use_true_triangulation) {
       success = true;
     } else {
       pos_f_in_l = pos_f_in_l_tri;
@@ -149,7 +152,7 @@ bool MsckfUpdater::TriangulateFeature(
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-    if (!m_use_true_triangulation) {
+    if (!use_true_triangulation) {
       pos_f_in_l = pos_f_in_l_tri;
     }
     success = true;
-- 
2.43.0


From 8c24eaf1aefbee9a08931ee28d8d306a5ac0f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 22/76] fix: heading of the GPS reference keeps its sign

---
 src/utility/math_helper.cpp | 2 +-
 src/utility/math_helper.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index d9567bb..1f48693 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -205,7 +205,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index 64711cf..f0583d1 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -113,9 +113,9 @@ double sign(const double val);
 Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & input_vectors);
 
 ///
-/// @brief Get angle of affine transformation
+/// @brief Get angle of in-plane affine transformation
 /// @param transform Affine transformation
-/// @return Rotation angle
+/// @return Signed rotation angle about the vertical axis
 ///
 double affine_angle(const Eigen::Affine3d & transform);
 
-- 
2.43.0


From 5083b8665187b055a0123dd6d92f0e31af2a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 23/76] fix: GPS reference position is the local origin also
 when the heading is not zero

---
 src/ekf/ekf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 5c06ff0..49624cf 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -820,8 +820,9 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
-      Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
+      // Location of the local frame origin in the initial ENU frame
+      Eigen::Vector3d delta_ref_enu = transformation.inverse().translation();
+      Eigen::Vector3d pos_e_in_g = enu_to_lla(delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
       m_debug_logger->Log(LogLevel::INFO, "GPS Updater Initialized");
-- 
2.43.0


From eb02630c7926430839e9c88992cf23318ba61328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 24/76] fix: angular error of the GPS alignment is relative to
 the right centroid and always set

---
 src/utility/math_helper.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 1f48693..50a7b6d 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -250,7 +250,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
@@ -259,9 +259,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
-  if (sum_count != 0.0) {
-    ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
-  }
+  ang_stddev = (sum_count != 0.0) ? std::sqrt(sum_square_slopes) / sum_count : 0.0;
 
   return true;
 }
-- 
2.43.0


From 6c4b72b652f90e225cec32c4f5340713fbfdbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 25/76] fix: GPS baseline is not truncated to whole metres

---
 src/utility/math_helper.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 50a7b6d..b6946ad 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -264,15 +264,14 @@ bool kabsch_2d(
   return true;
 }
 
-/// @todo This method uses integers for distance, where doubles would be more accurate
 double maximum_distance(const std::vector<Eigen::Vector3d> & eigen_points)
 {
-  std::vector<cv::Point> points;
-  std::vector<cv::Point> hull;
+  std::vector<cv::Point2f> points;
+  std::vector<cv::Point2f> hull;
   for (auto eigen_point : eigen_points) {
-    cv::Point cv_point;
-    cv_point.x = static_cast<int>(eigen_point.x());
-    cv_point.y = static_cast<int>(eigen_point.y());
+    cv::Point2f cv_point;
+    cv_point.x = static_cast<float>(eigen_point.x());
+    cv_point.y = static_cast<float>(eigen_point.y());
     points.push_back(cv_point);
   }
   cv::convexHull(points, hull);
-- 
2.43.0


From 8daa485b338d9bf96690ec508134fb97599892b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 26/76] fix: GPS alignment uses the antenna position, not the
 body position

---
 src/ekf/ekf.cpp                | 6 ++++--
 src/ekf/ekf.hpp                | 4 +++-
 src/ekf/update/gps_updater.cpp | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 49624cf..faaf7da 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -789,11 +789,13 @@ void EKF::RefreshIndices()
 
 void EKF::AttemptGpsInitialization(
   double time,
-  const Eigen::Vector3d & gps_lla)
+  const Eigen::Vector3d & gps_lla,
+  const Eigen::Vector3d & pos_a_in_b)
 {
   m_gps_time_vec.push_back(time);
   m_gps_ecef_vec.push_back(lla_to_ecef(gps_lla));
-  m_gps_xyz_vec.push_back(m_state.body_state.pos_b_in_l);
+  m_gps_xyz_vec.push_back(
+    m_state.body_state.pos_b_in_l + m_state.body_state.ang_b_to_l * pos_a_in_b);
 
   if (m_gps_time_vec.size() >= 4) {
     Eigen::Vector3d init_ref_ecef = average_vectors(m_gps_ecef_vec);
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..5662ad7 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -298,10 +298,12 @@ public:
   /// @brief GPS LLA to ENU Initialization Routine
   /// @param time GPS measured time
   /// @param gps_lla GPS measured lat-lon-alt
+  /// @param pos_a_in_b GPS antenna position in the body frame
   ///
   void AttemptGpsInitialization(
     double time,
-    const Eigen::Vector3d & gps_lla);
+    const Eigen::Vector3d & gps_lla,
+    const Eigen::Vector3d & pos_a_in_b = Eigen::Vector3d::Zero());
 
   ///
   /// @brief GPS time vector getter
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index e143d60..2c42a37 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -104,7 +104,8 @@ void GpsUpdater::UpdateEKF(
   double ang_l_to_e = ekf.GetReferenceAngle();
   if (!ekf.IsLlaInitialized()) {
     m_logger->Log(LogLevel::INFO, "GPS Updater Attempt Initialization");
-    ekf.AttemptGpsInitialization(local_time, gps_lla);
+    ekf.AttemptGpsInitialization(
+      local_time, gps_lla, ekf.m_state.gps_states[m_id].pos_a_in_b);
     if (ekf.IsLlaInitialized()) {
       // Perform single update with compressed measurements
       MultiUpdateEKF(ekf);
-- 
2.43.0


From e185c6f9febabc29a33d8447d40b3c6531d7596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:53 +0000
Subject: [PATCH 27/76] fix: radial distortion uses the second coefficient for
 the fourth-order term

---
 src/ekf/update/msckf_updater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index e1bb8e0..377fb85 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -239,10 +239,10 @@ Eigen::Vector2d MsckfUpdater::Distort(
   double r2 = x2 + y2;
   Eigen::Vector2d xy;
 
-  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(0) = xy_norm(0) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_1 * xy_norm(0) * xy_norm(1) + intrinsics.p_2 * (r2 + 2 * x2);
 
-  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_1 * r2 * r2) +
+  xy(1) = xy_norm(1) * (1 + intrinsics.k_1 * r2 + intrinsics.k_2 * r2 * r2) +
     2 * intrinsics.p_2 * xy_norm(0) * xy_norm(1) + intrinsics.p_1 * (r2 + 2 * y2);
 
   return xy;
-- 
2.43.0


From ac36c95fd611788a4fdaef740cec7dee280f430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:09 +0000
Subject: [PATCH 28/76] fix: multi-IMU measurement model and Jacobian use
 consistent frames

---
 src/ekf/update/imu_updater.cpp | 80 ++++++++++++++++------------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 6ad9925..d6e8fcd 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -305,30 +305,27 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   return true;
 }
 
-/// TODO: The frames are not correct here
 Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
   Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
   Eigen::Vector3d acc_bias = ekf.m_state.imu_states[m_id].acc_bias;
   Eigen::Vector3d omg_bias = ekf.m_state.imu_states[m_id].omg_bias;
-  Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Quaterniond ang_l_to_b = ekf.m_state.body_state.ang_b_to_l.inverse();
 
   Eigen::VectorXd predicted_measurement(6);
 
-  Eigen::Vector3d imu_acc_b =
-    ekf.m_state.body_state.acc_b_in_l +
-    ekf.m_state.body_state.ang_acc_b_in_l.cross(pos_i_in_b) +
-    ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    (ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b))) +
-    2 * ekf.m_state.body_state.ang_vel_b_in_l.cross(
-    ekf.m_state.body_state.vel_b_in_l);
+  // Body motion in the body frame
+  Eigen::Vector3d acc_b = ang_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d ang_vel_b = ang_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b = ang_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
 
-  Eigen::Vector3d imu_omg_b = ang_b_to_l.inverse() * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d imu_acc_b =
+    acc_b + ang_acc_b.cross(pos_i_in_b) + ang_vel_b.cross(ang_vel_b.cross(pos_i_in_b));
 
   // Rotate measurements in place
   predicted_measurement.segment<3>(0) = acc_bias + ang_i_to_b.inverse() * imu_acc_b;
-  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * imu_omg_b;
+  predicted_measurement.segment<3>(3) = omg_bias + ang_i_to_b.inverse() * ang_vel_b;
 
   return predicted_measurement;
 }
@@ -336,53 +333,52 @@ Eigen::VectorXd ImuUpdater::PredictMeasurement(EKF & ekf) const
 Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
 {
   Eigen::Vector3d pos_i_in_b = ekf.m_state.imu_states[m_id].pos_i_in_b;
-  Eigen::Quaterniond ang_i_to_b = ekf.m_state.imu_states[m_id].ang_i_to_b;
-  Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
+  Eigen::Matrix3d rot_b_to_i =
+    ekf.m_state.imu_states[m_id].ang_i_to_b.inverse().toRotationMatrix();
+  Eigen::Matrix3d rot_l_to_b = ekf.m_state.body_state.ang_b_to_l.inverse().toRotationMatrix();
+
+  // Body motion in the body frame
+  Eigen::Vector3d acc_b = rot_l_to_b * ekf.m_state.body_state.acc_b_in_l;
+  Eigen::Vector3d ang_vel_b = rot_l_to_b * ekf.m_state.body_state.ang_vel_b_in_l;
+  Eigen::Vector3d ang_acc_b = rot_l_to_b * ekf.m_state.body_state.ang_acc_b_in_l;
+
+  // Derivative of the IMU acceleration by the body angular velocity in the body frame
+  Eigen::Matrix3d jac_ang_vel = -(SkewSymmetric(ang_vel_b) * SkewSymmetric(pos_i_in_b) +
+    SkewSymmetric(ang_vel_b.cross(pos_i_in_b)));
 
   Eigen::MatrixXd measurement_jacobian = Eigen::MatrixXd::Zero(6, ekf.GetStateSize());
 
   // Body Acceleration
-  measurement_jacobian.block<3, 3>(0, 6) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
 
-  // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(0, 12) = ang_i_to_b.inverse().toRotationMatrix() * (
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l) *
-    SkewSymmetric(pos_i_in_b).transpose() +
-    SkewSymmetric(ekf.m_state.body_state.ang_vel_b_in_l.cross(pos_i_in_b)).transpose()
+  // Body Angular Position
+  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
+    SkewSymmetric(acc_b) -
+    SkewSymmetric(pos_i_in_b) * SkewSymmetric(ang_acc_b) +
+    jac_ang_vel * SkewSymmetric(ang_vel_b)
   );
-
-  // Body Angular Acceleration
-  measurement_jacobian.block<3, 3>(0, 15) = -ang_i_to_b.inverse().toRotationMatrix() *
-    SkewSymmetric(pos_i_in_b);
+  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i * SkewSymmetric(ang_vel_b);
 
   // Body Angular Velocity
-  measurement_jacobian.block<3, 3>(3, 12) = ang_i_to_b.inverse().toRotationMatrix() *
-    ang_b_to_l.inverse().toRotationMatrix();
+  measurement_jacobian.block<3, 3>(0, 12) = rot_b_to_i * jac_ang_vel * rot_l_to_b;
+  measurement_jacobian.block<3, 3>(3, 12) = rot_b_to_i * rot_l_to_b;
+
+  // Body Angular Acceleration
+  measurement_jacobian.block<3, 3>(0, 15) = -rot_b_to_i * SkewSymmetric(pos_i_in_b) * rot_l_to_b;
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::Vector3d ang_vel_b_in_l = ekf.m_state.body_state.ang_vel_b_in_l;
-    Eigen::Vector3d ang_acc_b_in_l = ekf.m_state.body_state.ang_acc_b_in_l;
-
 
     // IMU Positional Offset
-    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) =
-      ang_i_to_b.inverse().toRotationMatrix() * (SkewSymmetric(ang_acc_b_in_l) +
-      SkewSymmetric(ang_vel_b_in_l) * SkewSymmetric(ang_vel_b_in_l)
-      );
+    measurement_jacobian.block<3, 3>(0, index_extrinsic + 0) = rot_b_to_i * (
+      SkewSymmetric(ang_acc_b) + SkewSymmetric(ang_vel_b) * SkewSymmetric(ang_vel_b));
 
     // IMU Angular Offset
     measurement_jacobian.block<3, 3>(0, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * (ang_acc_b_in_l.cross(pos_i_in_b) +
-      ang_vel_b_in_l.cross(ang_vel_b_in_l.cross(pos_i_in_b)) +
-      ang_b_to_l.inverse() * ekf.m_state.body_state.acc_b_in_l
-      )
-    );
-
-    // IMU Angular Offset
-    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) = SkewSymmetric(
-      ang_i_to_b.inverse() * ang_b_to_l.inverse() * ang_vel_b_in_l);
+      rot_b_to_i * (acc_b + ang_acc_b.cross(pos_i_in_b) +
+      ang_vel_b.cross(ang_vel_b.cross(pos_i_in_b))));
+    measurement_jacobian.block<3, 3>(3, index_extrinsic + 3) =
+      SkewSymmetric(rot_b_to_i * ang_vel_b);
   }
 
   if (m_is_intrinsic) {
-- 
2.43.0


From cbc315638ae542d4992291953d2834e97d28a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:07 +0000
Subject: [PATCH 29/76] fix: first-estimate Jacobians no longer freeze the
 predicted measurement

---
 src/ekf/update/fiducial_updater.cpp | 13 ++++++++-----
 src/ekf/update/gps_updater.cpp      |  8 ++------
 src/ekf/update/msckf_updater.cpp    | 30 +++++++++++++++++++----------
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index ede5c6b..ed54c95 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -124,11 +124,14 @@ Eigen::MatrixXd FiducialUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
 {
-  RefreshStates(ekf);
+  Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_camera_id].pos_c_in_b;
+  Eigen::Quaterniond ang_c_to_b = ekf.m_state.cam_states[m_camera_id].ang_c_to_b;
+  Eigen::Vector3d pos_f_in_l = ekf.m_state.fid_states[m_id].pos_f_in_l;
+  Eigen::Quaterniond ang_f_to_l = ekf.m_state.fid_states[m_id].ang_f_to_l;
   Eigen::VectorXd predicted_measurement = Eigen::VectorXd::Zero(6);
   Eigen::Quaterniond ang_b_to_l = ekf.m_state.body_state.ang_b_to_l;
   Eigen::Vector3d pos_b_in_l = ekf.m_state.body_state.pos_b_in_l;
-  Eigen::Matrix3d rot_b_to_c = m_ang_c_to_b.toRotationMatrix().transpose();
+  Eigen::Matrix3d rot_b_to_c = ang_c_to_b.toRotationMatrix().transpose();
   Eigen::Matrix3d rot_b_to_l = ang_b_to_l.toRotationMatrix();
   Eigen::Matrix3d rot_l_to_b = rot_b_to_l.transpose();
   Eigen::Quaterniond ang_l_to_c(rot_b_to_c * rot_l_to_b);
@@ -137,9 +140,9 @@ Eigen::VectorXd FiducialUpdater::PredictMeasurement(EKF & ekf)
   Eigen::Quaterniond ang_predicted, ang_measured, ang_residual;
 
   // Project the current feature into the current frame of reference
-  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (m_pos_f_in_l - pos_b_in_l);
-  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - m_pos_c_in_b);
-  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * m_ang_f_to_l);
+  Eigen::Vector3d pos_f_in_b = rot_l_to_b * (pos_f_in_l - pos_b_in_l);
+  predicted_measurement.segment<3>(0) = rot_b_to_c * (pos_f_in_b - pos_c_in_b);
+  predicted_measurement.segment<3>(3) = QuatToRotVec(ang_l_to_c * ang_f_to_l);
   return predicted_measurement;
 }
 
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 2c42a37..4ea6a08 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -79,12 +79,8 @@ Eigen::MatrixXd GpsUpdater::GetMeasurementJacobian(EKF & ekf)
 
 Eigen::Vector3d GpsUpdater::PredictMeasurement(EKF & ekf)
 {
-  if (!ekf.GetUseFirstEstimateJacobian() || m_is_first_estimate) {
-    m_pos_a_in_b = ekf.m_state.gps_states[m_id].pos_a_in_b;
-    m_is_first_estimate = false;
-  }
-
-  return ekf.m_state.body_state.pos_b_in_l + ekf.m_state.body_state.ang_b_to_l * m_pos_a_in_b;
+  return ekf.m_state.body_state.pos_b_in_l +
+         ekf.m_state.body_state.ang_b_to_l * ekf.m_state.gps_states[m_id].pos_a_in_b;
 }
 
 void GpsUpdater::UpdateEKF(
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 377fb85..79457f0 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -83,6 +83,10 @@ bool MsckfUpdater::TriangulateFeature(
     pos_f_in_l = feature_track.true_feature_position;
   }
 
+  const CamState & cam_state = ekf.m_state.cam_states[m_id];
+  const Intrinsics & intrinsics = cam_state.intrinsics;
+  const Eigen::Vector3d & pos_c_in_b = cam_state.pos_c_in_b;
+
   AugState aug_state_0 = ekf.GetAugState(
     m_id, feature_track.track[0].frame_id, feature_track.track[0].frame_time);
 
@@ -92,7 +96,7 @@ bool MsckfUpdater::TriangulateFeature(
 
   const Eigen::Vector3d pos_b0_in_l = aug_state_0.pos_b_in_l;
   const Eigen::Matrix3d rot_b0_to_l = aug_state_0.ang_b_to_l.toRotationMatrix();
-  const Eigen::Matrix3d rot_c_to_b = m_ang_c_to_b.toRotationMatrix();
+  const Eigen::Matrix3d rot_c_to_b = cam_state.ang_c_to_b.toRotationMatrix();
 
   const Eigen::Matrix3d rot_l_to_b0 = rot_b0_to_l.transpose();
   const Eigen::Matrix3d rot_b0_to_c0 = rot_c_to_b.transpose();
@@ -107,15 +111,15 @@ bool MsckfUpdater::TriangulateFeature(
     // Convert current pos relative to anchor
     Eigen::Matrix3d rot_ci_to_c0 = rot_b0_to_c0 * rot_l_to_b0 * rot_bi_to_l * rot_c_to_b;
     Eigen::Vector3d pos_ci_in_c0 = rot_b0_to_c0 * rot_l_to_b0 * (
-      (rot_bi_to_l * m_pos_c_in_b + pos_bi_in_l) -
-      (rot_b0_to_l * m_pos_c_in_b + pos_b0_in_l));
+      (rot_bi_to_l * pos_c_in_b + pos_bi_in_l) -
+      (rot_b0_to_l * pos_c_in_b + pos_b0_in_l));
 
     // Get the UV coordinate normal
     Eigen::Vector3d b_i;
     b_i(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
-      m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
+      intrinsics.width / 2) / (intrinsics.f_x / intrinsics.pixel_size);
     b_i(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
-      m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
+      intrinsics.height / 2) / (intrinsics.f_y / intrinsics.pixel_size);
     b_i(2) = 1;
 
     // Rotate and normalize
@@ -145,7 +149,7 @@ bool MsckfUpdater::TriangulateFeature(
       success = false;
     }
   } else {
-    pos_f_in_l_tri = rot_b0_to_l * (m_ang_c_to_b * pos_f_in_c0 + m_pos_c_in_b) + pos_b0_in_l;
+    pos_f_in_l_tri = rot_b0_to_l * (rot_c_to_b * pos_f_in_c0 + pos_c_in_b) + pos_b0_in_l;
 
     std::stringstream msg;
     msg << std::setprecision(3) << local_time;
@@ -279,6 +283,12 @@ void MsckfUpdater::UpdateEKF(
     m_is_first_estimate = false;
   }
 
+  // Residuals always use the current camera estimate
+  const Intrinsics intrinsics = ekf.m_state.cam_states[m_id].intrinsics;
+  const Eigen::Vector3d pos_c_in_b = ekf.m_state.cam_states[m_id].pos_c_in_b;
+  const Eigen::Matrix3d rot_b_to_c =
+    ekf.m_state.cam_states[m_id].ang_c_to_b.toRotationMatrix().transpose();
+
   // Calculate the max possible measurement size
   unsigned int max_meas_size = 0;
   for (unsigned int i = 0; i < feature_tracks.size(); ++i) {
@@ -326,14 +336,14 @@ void MsckfUpdater::UpdateEKF(
 
       // Project the current feature into the current frame of reference
       Eigen::Vector3d pos_f_in_bi = rot_bi_to_l.transpose() * (pos_f_in_l - pos_bi_in_l);
-      Eigen::Vector3d pos_f_in_ci = rot_ci_to_b.transpose() * (pos_f_in_bi - m_pos_c_in_b);
-      Eigen::Vector2d xy_predicted = Project(pos_f_in_ci);
+      Eigen::Vector3d pos_f_in_ci = rot_b_to_ci * (pos_f_in_bi - m_pos_c_in_b);
+      Eigen::Vector2d xy_predicted = Project(rot_b_to_c * (pos_f_in_bi - pos_c_in_b));
 
       Eigen::Vector2d xy_measured;
       xy_measured(0) = (static_cast<double>(feature_track.track[i].key_point.pt.x) -
-        m_intrinsics.width / 2) / (m_intrinsics.f_x / m_intrinsics.pixel_size);
+        intrinsics.width / 2) / (intrinsics.f_x / intrinsics.pixel_size);
       xy_measured(1) = (static_cast<double>(feature_track.track[i].key_point.pt.y) -
-        m_intrinsics.height / 2) / (m_intrinsics.f_y / m_intrinsics.pixel_size);
+        intrinsics.height / 2) / (intrinsics.f_y / intrinsics.pixel_size);
       Eigen::Vector2d xz_residual = xy_measured - xy_predicted;
       res_f.segment<2>(2 * i) = xz_residual;
 
-- 
2.43.0


From 3d592304aefe100dd563e545511c6707b55d2eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:21 +0000
Subject: [PATCH 30/76] fix: feature tracks end when a frame has no descriptors

---
 src/trackers/feature_tracker.cpp | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..c1c4d25 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -240,28 +240,28 @@ void FeatureTracker::Track(
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
     }
+  }
 
-    // Update MSCKF on features no longer detected
-    FeatureTracks feature_tracks;
-    for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
-      const auto & feature_points = it->second;
-      if ((feature_points.back().frame_id < frame_id) ||
-        (feature_points.size() >= m_max_track_length))
-      {
-        // This feature does not exist in the latest frame
-        if (feature_points.size() >= m_min_track_length) {
-          FeatureTrack feature_track;
-          feature_track.track = feature_points;
-          feature_tracks.push_back(feature_track);
-        }
-        it = m_feature_points_map.erase(it);
-      } else {
-        ++it;
+  // Update MSCKF on features no longer detected
+  FeatureTracks feature_tracks;
+  for (auto it = m_feature_points_map.cbegin(); it != m_feature_points_map.cend(); ) {
+    const auto & feature_points = it->second;
+    if ((feature_points.back().frame_id < frame_id) ||
+      (feature_points.size() >= m_max_track_length))
+    {
+      // This feature does not exist in the latest frame
+      if (feature_points.size() >= m_min_track_length) {
+        FeatureTrack feature_track;
+        feature_track.track = feature_points;
+        feature_tracks.push_back(feature_track);
       }
+      it = m_feature_points_map.erase(it);
+    } else {
+      ++it;
     }
-    if (!feature_tracks.empty()) {
-      m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
-    }
+  }
+  if (!feature_tracks.empty()) {
+    m_msckf_updater.UpdateEKF(*m_ekf, time, feature_tracks, m_px_error);
   }
 
   m_prev_frame_id = frame_id;
-- 
2.43.0


From 29d36fd963d133b42828ea9b45cf2cfb27c5245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 31/76] fix: feature points of down-sampled images are pixels
 of the input image

---
 src/trackers/feature_tracker.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index c1c4d25..d82b43f 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -196,6 +196,15 @@ void FeatureTracker::Track(
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
 
+  // Matching is done in the down-sampled image, but feature points are pixels of the input image
+  const float scale_x = static_cast<float>(img_in.cols) / static_cast<float>(img_down.cols);
+  const float scale_y = static_cast<float>(img_in.rows) / static_cast<float>(img_down.rows);
+  auto input_key_point = [scale_x, scale_y](cv::KeyPoint key_point) {
+      key_point.pt.x = (key_point.pt.x + 0.5F) * scale_x - 0.5F;
+      key_point.pt.y = (key_point.pt.y + 0.5F) * scale_y - 0.5F;
+      return key_point;
+    };
+
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
   if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
@@ -218,8 +227,10 @@ void FeatureTracker::Track(
 
     // Draw tracks
     for (const auto & match : matches_final) {
-      cv::Point2f point_old = m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].pt;
-      cv::Point2f point_new = curr_key_points[static_cast<unsigned int>(match.trainIdx)].pt;
+      cv::Point2f point_old =
+        input_key_point(m_prev_key_points[static_cast<unsigned int>(match.queryIdx)]).pt;
+      cv::Point2f point_new =
+        input_key_point(curr_key_points[static_cast<unsigned int>(match.trainIdx)]).pt;
       cv::line(img_out, point_old, point_new, cv::Scalar(0, 255, 0), 2, 8, 0);
     }
 
@@ -228,14 +239,14 @@ void FeatureTracker::Track(
       if (m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id == -1) {
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id = GenerateFeatureID();
         FeaturePoint feat_point {m_prev_frame_id, m_prev_frame_time,
-          m_prev_key_points[static_cast<unsigned int>(match.queryIdx)]};
+          input_key_point(m_prev_key_points[static_cast<unsigned int>(match.queryIdx)])};
         m_feature_points_map[static_cast<unsigned int>(m_prev_key_points[
             static_cast<unsigned int>(match.queryIdx)].class_id)].push_back(feat_point);
       }
       curr_key_points[static_cast<unsigned int>(match.trainIdx)].class_id =
         m_prev_key_points[static_cast<unsigned int>(match.queryIdx)].class_id;
       FeaturePoint feat_point {frame_id, m_ekf->GetCurrentTime(),
-        curr_key_points[static_cast<unsigned int>(match.trainIdx)]};
+        input_key_point(curr_key_points[static_cast<unsigned int>(match.trainIdx)])};
       m_feature_points_map[static_cast<unsigned int>(curr_key_points[
           static_cast<unsigned int>(match.trainIdx)].class_id)].
       push_back(feat_point);
-- 
2.43.0


From 57341bec105b34c101d308516200f1133bfcd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:47 +0000
Subject: [PATCH 32/76] fix: rate-limited logging that starts at time zero is
 limited

---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..30d6d33 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..e2e8b36 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From 8fef397853f85d99d9048abe0357d17c421915fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:03 +0000
Subject: [PATCH 33/76] fix: logged variances are those of the covariance in
 both forms

---
 src/ekf/ekf.cpp                     |  2 +-
 src/ekf/update/fiducial_updater.cpp |  6 ++++--
 src/ekf/update/gps_updater.cpp      |  3 ++-
 src/ekf/update/imu_updater.cpp      | 12 +++++++++---
 src/ekf/update/msckf_updater.cpp    |  3 ++-
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index faaf7da..eb1f05e 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -100,7 +100,7 @@ void EKF::LogBodyStateIfNeeded(int execution_count)
     std::stringstream msg;
     Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
     if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
+      body_cov = m_cov.leftCols<g_body_state_size>().colwise().squaredNorm();
     }
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index ed54c95..edafd62 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -199,7 +199,8 @@ void FiducialUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(
+        fid_index, g_fid_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
@@ -208,7 +209,8 @@ void FiducialUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(
+        cam_index, g_cam_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index 4ea6a08..b2d596f 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -135,7 +135,8 @@ void GpsUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(
+        gps_index, g_gps_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index d6e8fcd..f44b5f5 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -140,7 +140,7 @@ void ImuUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag =
       ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(imu_index, imu_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
@@ -280,13 +280,19 @@ bool ImuUpdater::ZeroAccelerationUpdate(
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
     Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    if (ekf.GetUseRootCovariance()) {
+      ex_diag = ekf.m_cov.middleCols(index_extrinsic, 6).colwise().squaredNorm();
+    }
+    msg << VectorToCommaString(ex_diag);
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
     Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    if (ekf.GetUseRootCovariance()) {
+      in_diag = ekf.m_cov.middleCols(index_intrinsic, 6).colwise().squaredNorm();
+    }
+    msg << VectorToCommaString(in_diag);
   }
 
   msg << VectorToCommaString(acceleration);
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 79457f0..4eeb25c 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -428,7 +428,8 @@ void MsckfUpdater::UpdateEKF(
     Eigen::VectorXd cov_diag = ekf.m_cov.block(
       cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
     if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
+      cov_diag = ekf.m_cov.middleCols(
+        cam_index, g_cam_extrinsic_state_size).colwise().squaredNorm();
     }
     msg << VectorToCommaString(cov_diag);
   }
-- 
2.43.0


From 04795e2df2871b7204c6382c3a620345bd163ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:46 +0000
Subject: [PATCH 34/76] fix: fiducial log follows the configured rate

---
 src/ekf/update/fiducial_updater.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index edafd62..dd4673c 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -68,6 +68,7 @@ FiducialUpdater::FiducialUpdater(
 
   m_fiducial_logger.DefineHeader(header.str());
   if (data_log_rate != 0.0) {m_fiducial_logger.EnableLogging();}
+  m_fiducial_logger.SetLogRate(data_log_rate);
 }
 
 void FiducialUpdater::RefreshStates(EKF & ekf)
-- 
2.43.0


From e27471842c0868676b5a4f41c71b8f58b592d163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 35/76] fix: fiducial boards without a valid pose no longer
 update the filter

---
 src/trackers/fiducial_tracker.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..07e61f4 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -165,19 +165,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 2e5257f531211c9d58c60c093912d3deafc4e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 36/76] fix: markers of ArUco grid boards are used for the
 board pose

---
 src/trackers/fiducial_tracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 07e61f4..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
-- 
2.43.0


From f6e4b9733e55baeaf07bb2d8e70c760b7de3c12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 37/76] fix: vectors of any length convert to Eigen vectors

---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 5df5f0613bfb3e470e5a04d5a590109eedb3aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 38/76] fix: cyclic truth rests at the orientation its motion
 starts from

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..c721ba2 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From 8a5d065a075dbba02563739143ab8c4644d8401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 39/76] fix: cyclic truth angular acceleration is the
 derivative of the angular rate

---
 .../sim/truth_engine_cyclic.cpp               | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index c721ba2..87c126b 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -188,7 +188,27 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
 
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
+    // Time derivative of the transform
+    Eigen::Matrix3d d_transform;
+    d_transform.setZero();
+    d_transform(0, 2) = -std::cos(rpy[1]) * d_rpy[1];
+    d_transform(1, 1) = -std::sin(rpy[0]) * d_rpy[0];
+    d_transform(1, 2) = std::cos(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::sin(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+    d_transform(2, 1) = -std::cos(rpy[0]) * d_rpy[0];
+    d_transform(2, 2) = -std::sin(rpy[0]) * std::cos(rpy[1]) * d_rpy[0] -
+      std::cos(rpy[0]) * std::sin(rpy[1]) * d_rpy[1];
+
+    body_ang_acc = transform * dd_rpy + d_transform * d_rpy;
   }
   return body_ang_acc;
 }
-- 
2.43.0


From 301cbf51bf4ed06da6465747592b6a8c026401cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:57 +0000
Subject: [PATCH 40/76] fix: spline truth rests at its first pose and ends at
 the maximum time

---
 src/infrastructure/sim/truth_engine_spline.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..03f4d39 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,10 +28,12 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time > m_max_time - m_stationary_time || IsSplineInvalid(m_pos_spline)) {
     body_pos = Eigen::Vector3d::Zero(3);
   } else {
-    body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
+    double spline_param =
+      relative_time > 0.0 ? relative_time / (m_max_time - m_stationary_time) : 0.0;
+    body_pos = m_pos_spline(spline_param);
   }
   return body_pos;
 }
@@ -74,10 +76,11 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time > m_max_time - m_stationary_time || IsSplineInvalid(m_ang_spline)) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
   } else {
-    double spline_param = relative_time / (m_max_time - m_stationary_time);
+    double spline_param =
+      relative_time > 0.0 ? relative_time / (m_max_time - m_stationary_time) : 0.0;
     Eigen::Vector3d euler_angles = m_ang_spline(spline_param);
 
     Eigen::Quaterniond angular_position = EigVecToQuat(euler_angles);
@@ -168,7 +171,7 @@ TruthEngineSpline::TruthEngineSpline(
 
 bool TruthEngineSpline::IsTimeInvalid(double time)
 {
-  return time < 0.0 || time > m_max_time;
+  return time < 0.0 || time > m_max_time - m_stationary_time;
 }
 
 bool TruthEngineSpline::IsSplineInvalid(const Eigen::Spline3d & spline)
-- 
2.43.0


From bed6ea79c824a302941145608f51cbf1d1733a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 41/76] fix: smoothed truth does not read past its last point

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From c2edd3ca4f123e4d1f2199a648b063fec237fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 42/76] fix: simulated fiducial measurements carry variances,
 not standard deviations

---
 src/trackers/sim/sim_fiducial_tracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trackers/sim/sim_fiducial_tracker.cpp b/src/trackers/sim/sim_fiducial_tracker.cpp
index 2b8d2eb..d28cf7a 100644
--- a/src/trackers/sim/sim_fiducial_tracker.cpp
+++ b/src/trackers/sim/sim_fiducial_tracker.cpp
@@ -134,8 +134,8 @@ std::shared_ptr<SimFiducialTrackerMessage> SimFiducialTracker::GenerateMessage(
     BoardDetection board_detection;
     board_detection.frame_id = frame_id;
     board_detection.frame_time = message_time;
-    board_detection.pos_error = m_t_vec_error;
-    board_detection.ang_error = m_r_vec_error;
+    board_detection.pos_error = m_t_vec_error.cwiseProduct(m_t_vec_error);
+    board_detection.ang_error = m_r_vec_error.cwiseProduct(m_r_vec_error);
     if (!m_no_errors) {
       board_detection.pos_f_in_c = SimRNG::VecNormRand(pos_f_in_c_true, m_t_vec_error);
       board_detection.ang_f_to_c = SimRNG::QuatNormRand(ang_f_to_c_true, m_r_vec_error);
-- 
2.43.0


From 16960d70f67b9d115490ee99d99a35010943d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 43/76] fix: simulated IMU measurements include the true bias
 also without errors

---
 src/sensors/sim/sim_imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..11e463e 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -99,7 +99,10 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     sim_imu_msg->acceleration = imu_acc_i;
     sim_imu_msg->angular_rate = imu_omg_i;
 
-    if (!m_no_errors) {
+    if (m_no_errors) {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
+    } else {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
     }
-- 
2.43.0


From 6de75a9223058cbbb713fc42c0bc443f918212b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 44/76] fix: truth log uses the identifiers of the sensors

---
 src/infrastructure/sim/truth_engine.cpp | 48 +++++++++++--------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine.cpp b/src/infrastructure/sim/truth_engine.cpp
index d953520..b8b72a7 100644
--- a/src/infrastructure/sim/truth_engine.cpp
+++ b/src/infrastructure/sim/truth_engine.cpp
@@ -232,22 +232,18 @@ void TruthEngine::WriteTruthData(
   header << EnumerateHeader("body_ang_vel", 3);
   header << EnumerateHeader("body_ang_acc", 3);
 
-  unsigned int sensor_count{0};
-  for (unsigned int i = 0; i < m_imu_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("imu_pos_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("imu_ang_pos_") + std::to_string(sensor_count), 4);
-    header << EnumerateHeader(std::string("imu_acc_bias_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("imu_gyr_bias_") + std::to_string(sensor_count), 3);
+  for (auto const & imu : m_imu_pos) {
+    header << EnumerateHeader(std::string("imu_pos_") + std::to_string(imu.first), 3);
+    header << EnumerateHeader(std::string("imu_ang_pos_") + std::to_string(imu.first), 4);
+    header << EnumerateHeader(std::string("imu_acc_bias_") + std::to_string(imu.first), 3);
+    header << EnumerateHeader(std::string("imu_gyr_bias_") + std::to_string(imu.first), 3);
   }
-  for (unsigned int i = 0; i < m_cam_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("cam_pos_") + std::to_string(sensor_count), 3);
-    header << EnumerateHeader(std::string("cam_ang_pos_") + std::to_string(sensor_count), 4);
+  for (auto const & cam : m_cam_pos) {
+    header << EnumerateHeader(std::string("cam_pos_") + std::to_string(cam.first), 3);
+    header << EnumerateHeader(std::string("cam_ang_pos_") + std::to_string(cam.first), 4);
   }
-  for (unsigned int i = 0; i < m_gps_pos.size(); ++i) {
-    ++sensor_count;
-    header << EnumerateHeader(std::string("gps_pos_") + std::to_string(sensor_count), 3);
+  for (auto const & gps : m_gps_pos) {
+    header << EnumerateHeader(std::string("gps_pos_") + std::to_string(gps.first), 3);
   }
   if (!m_gps_pos.empty()) {
     header << ",ref_lat,ref_lon,ref_alt,ref_heading";
@@ -257,7 +253,6 @@ void TruthEngine::WriteTruthData(
 
   auto num_measurements = static_cast<unsigned int>(std::floor((m_max_time + 1.0) * data_log_rate));
   for (unsigned int i = 0; i < num_measurements; ++i) {
-    sensor_count = 0;
     std::stringstream msg;
     double time = static_cast<double>(i) / data_log_rate;
     msg << time;
@@ -267,21 +262,18 @@ void TruthEngine::WriteTruthData(
     msg << QuaternionToCommaString(GetBodyAngularPosition(time));
     msg << VectorToCommaString(GetBodyAngularRate(time));
     msg << VectorToCommaString(GetBodyAngularAcceleration(time));
-    for (unsigned int j = 0; j < m_imu_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetImuPosition(sensor_count));
-      msg << QuaternionToCommaString(GetImuAngularPosition(sensor_count));
-      msg << VectorToCommaString(GetImuAccelerometerBias(sensor_count));
-      msg << VectorToCommaString(GetImuGyroscopeBias(sensor_count));
+    for (auto const & imu : m_imu_pos) {
+      msg << VectorToCommaString(GetImuPosition(imu.first));
+      msg << QuaternionToCommaString(GetImuAngularPosition(imu.first));
+      msg << VectorToCommaString(GetImuAccelerometerBias(imu.first));
+      msg << VectorToCommaString(GetImuGyroscopeBias(imu.first));
     }
-    for (unsigned int j = 0; j < m_cam_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetCameraPosition(sensor_count));
-      msg << QuaternionToCommaString(GetCameraAngularPosition(sensor_count));
+    for (auto const & cam : m_cam_pos) {
+      msg << VectorToCommaString(GetCameraPosition(cam.first));
+      msg << QuaternionToCommaString(GetCameraAngularPosition(cam.first));
     }
-    for (unsigned int j = 0; j < m_gps_pos.size(); ++j) {
-      ++sensor_count;
-      msg << VectorToCommaString(GetGpsPosition(sensor_count));
+    for (auto const & gps : m_gps_pos) {
+      msg << VectorToCommaString(GetGpsPosition(gps.first));
     }
     if (!m_gps_pos.empty()) {
       msg << VectorToCommaString(GetLocalPosition());
-- 
2.43.0


From a06752c26fcb2dfe76e021eec44ca2161243f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:45 +0000
Subject: [PATCH 45/76] fix: spline truth passes through repeated points

---
 src/infrastructure/sim/truth_engine_spline.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index 03f4d39..0bf75b4 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -126,6 +126,20 @@ Eigen::Vector3d TruthEngineSpline::GetBodyAngularAcceleration(double time)
   return body_ang_acc;
 }
 
+// Chord lengths, or uniform spacing if consecutive points are equal
+static Eigen::Spline3d::KnotVectorType SplineParameters(const Eigen::MatrixXd & points)
+{
+  Eigen::Spline3d::KnotVectorType parameters;
+  Eigen::ChordLengths(points, parameters);
+  for (Eigen::Index i = 1; i < parameters.size(); ++i) {
+    if (!(parameters[i] > parameters[i - 1])) {
+      parameters.setLinSpaced(parameters.size(), 0.0, 1.0);
+      break;
+    }
+  }
+  return parameters;
+}
+
 TruthEngineSpline::TruthEngineSpline(
   std::vector<double> poses,
   std::vector<double> angles,
@@ -163,9 +177,9 @@ TruthEngineSpline::TruthEngineSpline(
   indices.setZero();
 
   m_pos_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(
-    pos_mat, derivatives, indices, 2);
+    pos_mat, derivatives, indices, 2, SplineParameters(pos_mat));
   m_ang_spline = Eigen::SplineFitting<Eigen::Spline3d>::InterpolateWithDerivatives(
-    ang_mat, derivatives, indices, 2);
+    ang_mat, derivatives, indices, 2, SplineParameters(ang_mat));
   m_stationary_time = stationary_time;
 }
 
-- 
2.43.0


From 66d90220336e6c4a35abf102efd5f1848c75e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 46/76] fix: IMUs that only calibrate intrinsics start from the
 bias variances

---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..e72ed7f 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.tail<6>().asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From 3c2d51b5bde65e6da0fe7023578aa27a7d8d75f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 47/76] fix: tracks of features with a known position keep all
 their measurements

Only the error of an estimated feature position has to be projected out. With
the projection, tracks of known (simulated) features lost their information on
the absolute pose, and the estimate drifted away.
---
 src/ekf/update/msckf_updater.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 4eeb25c..c642d75 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -387,7 +387,10 @@ void MsckfUpdater::UpdateEKF(
       }
     }
 
-    ApplyLeftNullspace(H_f, H_c, res_f);
+    // Only an estimated feature position has an error that must be projected out
+    if (!m_use_true_triangulation || !feature_track.true_feature_position.allFinite()) {
+      ApplyLeftNullspace(H_f, H_c, res_f);
+    }
 
     /// @todo Chi^2 distance check
 
-- 
2.43.0


From 01e04bb95414c97548f5dcc5187a2969a5390b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 48/76] fix: multi-IMU readings correct the body motion, not
 the attitude

With an attitude block, changes of the acceleration that exceed its process
noise are absorbed by the attitude, and the estimate diverges.
---
 src/ekf/update/imu_updater.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index f44b5f5..097989d 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -357,13 +357,7 @@ Eigen::MatrixXd ImuUpdater::GetMeasurementJacobian(EKF & ekf) const
   // Body Acceleration
   measurement_jacobian.block<3, 3>(0, 6) = rot_b_to_i * rot_l_to_b;
 
-  // Body Angular Position
-  measurement_jacobian.block<3, 3>(0, 9) = rot_b_to_i * (
-    SkewSymmetric(acc_b) -
-    SkewSymmetric(pos_i_in_b) * SkewSymmetric(ang_acc_b) +
-    jac_ang_vel * SkewSymmetric(ang_vel_b)
-  );
-  measurement_jacobian.block<3, 3>(3, 9) = rot_b_to_i * SkewSymmetric(ang_vel_b);
+  // The attitude is not corrected by the motion, otherwise it absorbs the changes in acceleration
 
   // Body Angular Velocity
   measurement_jacobian.block<3, 3>(0, 12) = rot_b_to_i * jac_ang_vel * rot_l_to_b;
-- 
2.43.0


From fa24a7cd0cd284ad63c3245eb26bd9f18b22282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 49/76] fix: sensors without configured variances can be
 simulated

The default variances had three entries, while IMUs need twelve and cameras
and boards six, which aborted the simulation when calibrating them.
---
 src/application/sim/simulation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index a3fa3de..69c5383 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -157,6 +157,8 @@ int main(int argc, char * argv[])
   // Define default values
   std::vector<double> def_vec{0.0, 0.0, 0.0};
   std::vector<double> def_quat{1.0, 0.0, 0.0, 0.0};
+  std::vector<double> def_pose_var(6, 0.0);
+  std::vector<double> def_imu_var(12, 0.0);
 
   // Logging parameters
   EKF::Parameters ekf_params;
@@ -292,7 +294,7 @@ int main(int argc, char * argv[])
     LoadSensorParams(imu_params, imu_node, imus[i], log_directory, ekf, debug_logger);
     imu_params.is_extrinsic = imu_node["is_extrinsic"].as<bool>(false);
     imu_params.is_intrinsic = imu_node["is_intrinsic"].as<bool>(false);
-    imu_params.variance = StdToEigVec(imu_node["variance"].as<std::vector<double>>(def_vec));
+    imu_params.variance = StdToEigVec(imu_node["variance"].as<std::vector<double>>(def_imu_var));
     imu_params.pos_i_in_b = StdToEigVec(imu_node["pos_i_in_b"].as<std::vector<double>>(def_vec));
     imu_params.ang_i_to_b = StdToEigQuat(imu_node["ang_i_to_b"].as<std::vector<double>>(def_quat));
     imu_params.acc_bias = StdToEigVec(imu_node["acc_bias"].as<std::vector<double>>(def_vec));
@@ -367,7 +369,8 @@ int main(int argc, char * argv[])
       StdToEigVec(fid_node["pos_f_in_l"].as<std::vector<double>>(def_vec));
     fiducial_params.ang_f_to_l =
       StdToEigQuat(fid_node["ang_f_to_l"].as<std::vector<double>>(def_quat));
-    fiducial_params.variance = StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_vec));
+    fiducial_params.variance =
+      StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_pose_var));
     fiducial_params.squares_x = fid_node["squares_x"].as<unsigned int>(1);
     fiducial_params.squares_y = fid_node["squares_y"].as<unsigned int>(1);
     fiducial_params.square_length = fid_node["square_length"].as<double>(0.0);
@@ -401,7 +404,7 @@ int main(int argc, char * argv[])
 
     Camera::Parameters cam_params;
     LoadSensorParams(cam_params, cam_node, cameras[i], log_directory, ekf, debug_logger);
-    cam_params.variance = StdToEigVec(cam_node["variance"].as<std::vector<double>>(def_vec));
+    cam_params.variance = StdToEigVec(cam_node["variance"].as<std::vector<double>>(def_pose_var));
     cam_params.pos_c_in_b = StdToEigVec(cam_node["pos_c_in_b"].as<std::vector<double>>(def_vec));
     cam_params.ang_c_to_b = StdToEigQuat(cam_node["ang_c_to_b"].as<std::vector<double>>(def_quat));
     cam_params.is_extrinsic = cam_node["is_extrinsic"].as<bool>(false);
-- 
2.43.0


From 24af1beb4e6102e298cbd8ba63b236f38b719d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 50/76] fix: simulation reads the documented minimum feature
 distance

---
 src/application/sim/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 69c5383..ee07a3e 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -340,7 +340,7 @@ int main(int argc, char * argv[])
     track_params.px_error = trk_node["pixel_error"].as<double>(1.0);
     track_params.min_track_length = trk_node["min_track_length"].as<unsigned int>(2);
     track_params.max_track_length = trk_node["max_track_length"].as<unsigned int>(20);
-    track_params.min_feat_dist = trk_node["min_feat_dist"].as<double>(1.0);
+    track_params.min_feat_dist = trk_node["min_feature_distance"].as<double>(1.0);
     track_params.down_sample = trk_node["down_sample"].as<bool>(false);
     track_params.down_sample_height = trk_node["down_sample_height"].as<int>(480);
     track_params.down_sample_width = trk_node["down_sample_width"].as<int>(640);
-- 
2.43.0


From 99920077f5386b02246a6ab221a2e5c8eba218f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 51/76] fix: simulation reads the track lengths of boards

---
 src/application/sim/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index ee07a3e..57cd19b 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -376,6 +376,8 @@ int main(int argc, char * argv[])
     fiducial_params.square_length = fid_node["square_length"].as<double>(0.0);
     fiducial_params.marker_length = fid_node["marker_length"].as<double>(0.0);
     fiducial_params.id = fid_node["id"].as<unsigned int>(0);
+    fiducial_params.min_track_length = fid_node["min_track_length"].as<unsigned int>(2);
+    fiducial_params.max_track_length = fid_node["max_track_length"].as<unsigned int>(20);
     fiducial_params.is_extrinsic = fid_node["is_extrinsic"].as<bool>(false);
     fiducial_params.ekf = ekf;
     max_track_length = std::max(max_track_length, fiducial_params.max_track_length);
-- 
2.43.0


From 43ed1a7df67bdf403784640d4c7799f02d9e1c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:36 +0000
Subject: [PATCH 52/76] fix: simulation reads the board type

It was left uninitialised, so that any board or none was constructed.
---
 src/application/sim/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/application/sim/simulation.cpp b/src/application/sim/simulation.cpp
index 57cd19b..d05c020 100644
--- a/src/application/sim/simulation.cpp
+++ b/src/application/sim/simulation.cpp
@@ -369,6 +369,8 @@ int main(int argc, char * argv[])
       StdToEigVec(fid_node["pos_f_in_l"].as<std::vector<double>>(def_vec));
     fiducial_params.ang_f_to_l =
       StdToEigQuat(fid_node["ang_f_to_l"].as<std::vector<double>>(def_quat));
+    fiducial_params.detector_type =
+      static_cast<FiducialType>(fid_node["fiducial_type"].as<unsigned int>(0));
     fiducial_params.variance =
       StdToEigVec(fid_node["variance"].as<std::vector<double>>(def_pose_var));
     fiducial_params.squares_x = fid_node["squares_x"].as<unsigned int>(1);
-- 
2.43.0


From 2d80527d05f306a62f103a4c9c21bc23642fdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:31 +0000
Subject: [PATCH 53/76] fix: ROS node fills every entry of the process noise

---
 src/application/ros/node/ekf_cal_node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index b912515..8f51c6b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -64,7 +64,10 @@ EkfCalNode::EkfCalNode()
   declare_parameter("augmenting_ang_error", 0.0);
   declare_parameter("process_noise.pos", 1.0e-2);
   declare_parameter("process_noise.vel", 1.0e-2);
+  declare_parameter("process_noise.acc", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
+  declare_parameter("process_noise.ang_vel", 1.0e-2);
+  declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
   declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
@@ -623,12 +626,18 @@ Eigen::VectorXd EkfCalNode::LoadProcessNoise()
 {
   double pos_noise = get_parameter("process_noise.pos").as_double();
   double vel_noise = get_parameter("process_noise.vel").as_double();
+  double acc_noise = get_parameter("process_noise.acc").as_double();
   double ang_pos_noise = get_parameter("process_noise.ang_pos").as_double();
+  double ang_vel_noise = get_parameter("process_noise.ang_vel").as_double();
+  double ang_acc_noise = get_parameter("process_noise.ang_acc").as_double();
 
   Eigen::VectorXd process_noise(g_body_state_size);
   process_noise.segment<3>(0) = Eigen::Vector3d::Ones() * pos_noise;
   process_noise.segment<3>(3) = Eigen::Vector3d::Ones() * vel_noise;
-  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * acc_noise;
+  process_noise.segment<3>(9) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(12) = Eigen::Vector3d::Ones() * ang_vel_noise;
+  process_noise.segment<3>(15) = Eigen::Vector3d::Ones() * ang_acc_noise;
 
   return process_noise;
 }
-- 
2.43.0


From 2e74907599ff68f8b01159af6e708e620c7a01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:31 +0000
Subject: [PATCH 54/76] fix: ROS node's default body orientation is a rotation

---
 src/application/ros/node/ekf_cal_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 8f51c6b..c5d230e 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -69,7 +69,7 @@ EkfCalNode::EkfCalNode()
   declare_parameter("process_noise.ang_vel", 1.0e-2);
   declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
-  declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
+  declare_parameter("ang_b_to_l", std::vector<double>{1, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
   declare_parameter("ang_l_to_e", 0.0);
   declare_parameter("gps_init_type", 0);
-- 
2.43.0


From 4336a00e7eb5106bae10fbddd8e386af9b8175f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 55/76] fix: example configuration gives the detector threshold
 as the integer the node declares

---
 config/example.yaml | 2 +-
 docs/parameters.md  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/example.yaml b/config/example.yaml
index 046cf2c..c63812b 100644
--- a/config/example.yaml
+++ b/config/example.yaml
@@ -168,7 +168,7 @@
                 descriptor_matcher: 0       # DescriptorMatcher:
                                             #   0: BRUTE_FORCE
                                             #   1: FLANN
-                detector_threshold: 10.0    # Threshold used for detection (if available)
+                detector_threshold: 10      # Threshold used for detection (if available)
                 pixel_error: 0.5            # Average pixel error
                 min_feature_distance: 1.0   # Minimum feature distance to consider
                 min_track_length: 2         # Minimum track length
diff --git a/docs/parameters.md b/docs/parameters.md
index a8729fe..20ca746 100644
--- a/docs/parameters.md
+++ b/docs/parameters.md
@@ -213,7 +213,7 @@ The following is an example of a tracker input configuration.
                 descriptor_matcher: 0       # DescriptorMatcher:
                                             #   0: BRUTE_FORCE
                                             #   1: FLANN
-                detector_threshold: 10.0    # Threshold used for detection (if available)
+                detector_threshold: 10      # Threshold used for detection (if available)
                 pixel_error: 0.5            # Average pixel error
                 min_feature_distance: 1.0   # Minimum feature distance to consider
                 min_track_length: 2         # Minimum track length
-- 
2.43.0


From 49ff549199cf89ca413119e7eca70d7dbe455234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 56/76] fix: ROS node reads the GPS extrinsic calibration flag

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index c5d230e..629ac5e 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -443,6 +443,7 @@ void EkfCalNode::DeclareGpsParameters(const std::string & gps_name)
   DeclareSensorParameters(gps_prefix);
   declare_parameter(gps_prefix + ".pos_a_in_b", std::vector<double>{0, 0, 0});
   declare_parameter(gps_prefix + ".pos_stability", 1e-9);
+  declare_parameter(gps_prefix + ".is_extrinsic", false);
   declare_parameter(gps_prefix + ".variance", std::vector<double>{1, 1, 1});
 }
 
@@ -453,12 +454,14 @@ GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
   std::vector<double> pos_a_in_b = get_parameter(gps_prefix + ".pos_a_in_b").as_double_array();
   std::vector<double> variance = get_parameter(gps_prefix + ".variance").as_double_array();
   double pos_stability = get_parameter(gps_prefix + ".pos_stability").as_double();
+  bool is_extrinsic = get_parameter(gps_prefix + ".is_extrinsic").as_bool();
 
   GPS::Parameters gps_params;
   LoadSensorParameters(gps_params, gps_prefix, gps_name);
   gps_params.pos_a_in_b = StdToEigVec(pos_a_in_b);
   gps_params.variance = StdToEigVec(variance);
   gps_params.pos_stability = pos_stability;
+  gps_params.is_extrinsic = is_extrinsic;
   return gps_params;
 }
 
-- 
2.43.0


From 119f3f630e164ed08441590143aab68a58640225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 57/76] fix: ROS node gives trackers their camera's intrinsics
 and calibration flag

---
 src/application/ros/node/ekf_cal_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 629ac5e..3e63d14 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -501,6 +501,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.tracker.empty()) {
     FeatureTracker::Parameters trk_params = GetTrackerParameters(camera_params.tracker);
     trk_params.camera_id = camera_ptr->GetId();
+    trk_params.intrinsics = camera_params.intrinsics;
+    trk_params.is_cam_extrinsic = camera_params.is_extrinsic;
     trk_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FeatureTracker> trk_ptr = std::make_shared<FeatureTracker>(trk_params);
     camera_ptr->AddTracker(trk_ptr);
@@ -509,6 +511,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.fiducial.empty()) {
     FiducialTracker::Parameters fid_params = GetFiducialParameters(camera_params.fiducial);
     fid_params.camera_id = camera_ptr->GetId();
+    fid_params.intrinsics = camera_params.intrinsics;
+    fid_params.is_cam_extrinsic = camera_params.is_extrinsic;
     fid_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FiducialTracker> fid_ptr = std::make_shared<FiducialTracker>(fid_params);
     camera_ptr->AddFiducial(fid_ptr);
-- 
2.43.0


From d9107845da2873356ec37be9ec946ea56f52bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 58/76] fix: ROS node sets the filter's window to the longest
 track

---
 src/application/ros/node/ekf_cal_node.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 3e63d14..049e4bf 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -17,6 +17,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -193,6 +194,18 @@ void EkfCalNode::LoadSensors()
     LoadImu(imu_name);
   }
 
+  // The filter keeps as many camera frames as the longest track
+  unsigned int max_track_length {0};
+  for (std::string & tracker_name : m_tracker_list) {
+    max_track_length =
+      std::max(max_track_length, GetTrackerParameters(tracker_name).max_track_length);
+  }
+  for (std::string & fiducial_name : m_fiducial_list) {
+    max_track_length =
+      std::max(max_track_length, GetFiducialParameters(fiducial_name).max_track_length);
+  }
+  m_ekf->SetMaxTrackLength(max_track_length);
+
   // Load Camera sensor parameters
   for (std::string & cam_name : m_camera_list) {
     LoadCamera(cam_name);
-- 
2.43.0


From 4c90a985ccc46be9c3b713f31c653399c438b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 59/76] fix: ROS GPS messages carry their position covariance

---
 src/sensors/ros/ros_gps_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sensors/ros/ros_gps_message.cpp b/src/sensors/ros/ros_gps_message.cpp
index de33eae..f8640c9 100644
--- a/src/sensors/ros/ros_gps_message.cpp
+++ b/src/sensors/ros/ros_gps_message.cpp
@@ -24,5 +24,6 @@ RosGpsMessage::RosGpsMessage(const sensor_msgs::msg::NavSatFix::SharedPtr msg)
 {
   time = RosHeaderToTime(msg->header);
   gps_lla = Eigen::Vector3d{msg->latitude, msg->longitude, msg->altitude};
+  pos_covariance = RosToEigen(msg->position_covariance);
   sensor_type = SensorType::GPS;
 }
-- 
2.43.0


From c526cc8772f48b3d7ebd1a48e3ca59c3248fceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 60/76] fix: ROS node reads the tracker's down sampling flag

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 049e4bf..f44a335 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -356,6 +356,7 @@ void EkfCalNode::DeclareTrackerParameters(const std::string & tracker_name)
   declare_parameter(tracker_prefix + ".descriptor_matcher", 0);
   declare_parameter(tracker_prefix + ".detector_threshold", 20);
   declare_parameter(tracker_prefix + ".pixel_error", 1.0);
+  declare_parameter(tracker_prefix + ".down_sample", false);
   declare_parameter(tracker_prefix + ".down_sample_height", 480);
   declare_parameter(tracker_prefix + ".down_sample_width", 640);
   declare_parameter(tracker_prefix + ".min_feature_distance", 1.0);
@@ -372,6 +373,7 @@ FeatureTracker::Parameters EkfCalNode::GetTrackerParameters(const std::string &
   auto matcher = get_parameter(tracker_prefix + ".descriptor_matcher").as_int();
   auto threshold = get_parameter(tracker_prefix + ".detector_threshold").as_int();
   auto px_error = get_parameter(tracker_prefix + ".pixel_error").as_double();
+  auto down_sample = get_parameter(tracker_prefix + ".down_sample").as_bool();
   auto down_height = get_parameter(tracker_prefix + ".down_sample_height").as_int();
   auto down_width = get_parameter(tracker_prefix + ".down_sample_width").as_int();
   auto min_feat_dist = get_parameter(tracker_prefix + ".min_feature_distance").as_double();
@@ -384,6 +386,7 @@ FeatureTracker::Parameters EkfCalNode::GetTrackerParameters(const std::string &
   tracker_params.matcher = static_cast<Matcher>(matcher);
   tracker_params.threshold = static_cast<int>(threshold);
   tracker_params.px_error = px_error;
+  tracker_params.down_sample = down_sample;
   tracker_params.down_sample_height = static_cast<int>(down_height);
   tracker_params.down_sample_width = static_cast<int>(down_width);
   tracker_params.min_feat_dist = min_feat_dist;
-- 
2.43.0


From f615db3549dc555d910c4b5103b3e2c942787412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 61/76] fix: ROS debug logger prints messages that contain a
 percent sign

---
 src/infrastructure/ros/ros_debug_logger.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infrastructure/ros/ros_debug_logger.cpp b/src/infrastructure/ros/ros_debug_logger.cpp
index 054bbbe..c57e261 100644
--- a/src/infrastructure/ros/ros_debug_logger.cpp
+++ b/src/infrastructure/ros/ros_debug_logger.cpp
@@ -51,23 +51,23 @@ void DebugLogger::Log(LogLevel level, const std::string & message)
   if (m_log_level >= level) {
     switch (level) {
       case LogLevel::DEBUG:
-        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_DEBUG(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::INFO:
-        RCLCPP_INFO(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_INFO(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::WARN:
-        RCLCPP_WARN(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_WARN(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::ERROR:
-        RCLCPP_ERROR(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_ERROR(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
 
       case LogLevel::FATAL:
-        RCLCPP_FATAL(rclcpp::get_logger("Logger"), message_c_str);
+        RCLCPP_FATAL(rclcpp::get_logger("Logger"), "%s", message_c_str);
         break;
     }
   }
-- 
2.43.0


From d193479088676f94d4cdba0c0bfda68c8036741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 62/76] fix: Monte Carlo runs are numbered one by one

---
 eval/run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index bd96f24..7636e0f 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -111,13 +111,15 @@ def generate_mc_from_yaml(
                     random.seed(seed)
 
                 n_digits = math.ceil(math.log10(num_runs))
+                first_run = sim_yaml['run_number']
                 for i in range(num_runs):
                     sub_yaml = top_yaml
                     if (seed):
                         new_seed = random.randint(0, 1000000000)
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
                     sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs'] = 1
-                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] += i
+                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] = \
+                        first_run + i
                     if (time):
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['max_time'] = time
                     sub_file = os.path.join(
-- 
2.43.0


From 74f70872fa3a80e346129da3fbc1d54a92fe1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 63/76] fix: simulations run on machines with a single core

---
 eval/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index 7636e0f..53b9e0a 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -137,7 +137,7 @@ def generate_mc_from_yaml(
 
 def add_jobs(args):
     """Add simulation jobs to pool given list of top-level input yaml files."""
-    cpu_count = args.jobs if (args.jobs) else multiprocessing.cpu_count() - 1
+    cpu_count = args.jobs if (args.jobs) else max(1, multiprocessing.cpu_count() - 1)
     pool = multiprocessing.Pool(cpu_count)
 
     for yaml_file in args.inputs:
-- 
2.43.0


From 38e72df908710900ceb32566b4038711d6999ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 64/76] fix: logs of sensors with identifiers above nine are
 read

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 4c2196d..7379760 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -189,7 +189,7 @@ def find_and_read_data_frames(directories, prefix):
     data_frame_sets = collections.defaultdict(list)
     for directory in directories:
         file_paths_id = glob.glob(os.path.join(directory, prefix + '.csv'))
-        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9].csv')))
+        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9]*.csv')))
         for file_path in file_paths_id:
             file_name = os.path.basename(file_path)
             df = pd.read_csv(file_path).dropna()
-- 
2.43.0


From 5216b6030d3c274c3bb33c15fd433223359d0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 65/76] fix: NEES divides squared errors by the variances the
 logs hold

---
 eval/tab_body.py     | 36 ++++++++++++++++++------------------
 eval/tab_fiducial.py | 12 ++++++------
 eval/tab_gps.py      |  6 +++---
 eval/tab_imu.py      | 24 ++++++++++++------------
 eval/tab_msckf.py    | 12 ++++++------
 5 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/eval/tab_body.py b/eval/tab_body.py
index b252b6e..893b1bf 100644
--- a/eval/tab_body.py
+++ b/eval/tab_body.py
@@ -465,24 +465,24 @@ class tab_body:
             e17 = interpolate_error(tt, t17, xt, x17)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05 + \
-                e06 * e06 / c06 / c06 + \
-                e07 * e07 / c07 / c07 + \
-                e08 * e08 / c08 / c08 + \
-                e09 * e09 / c09 / c09 + \
-                e10 * e10 / c10 / c10 + \
-                e11 * e11 / c11 / c11 + \
-                e12 * e12 / c12 / c12 + \
-                e13 * e13 / c13 / c13 + \
-                e14 * e14 / c14 / c14 + \
-                e15 * e15 / c15 / c15 + \
-                e16 * e16 / c16 / c16 + \
-                e17 * e17 / c17 / c17
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05 + \
+                e06 * e06 / c06 + \
+                e07 * e07 / c07 + \
+                e08 * e08 / c08 + \
+                e09 * e09 / c09 + \
+                e10 * e10 / c10 + \
+                e11 * e11 / c11 + \
+                e12 * e12 / c12 + \
+                e13 * e13 / c13 + \
+                e14 * e14 / c14 + \
+                e15 * e15 / c15 + \
+                e16 * e16 / c16 + \
+                e17 * e17 / c17
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index 2387908..d87ea66 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -267,12 +267,12 @@ class tab_fiducial:
             c05 = fiducial_df['fid_cov_5']
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_gps.py b/eval/tab_gps.py
index 772e767..9bb7dad 100644
--- a/eval/tab_gps.py
+++ b/eval/tab_gps.py
@@ -152,9 +152,9 @@ class tab_gps:
             e02 = interpolate_error(tt, t02, xt, x02)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 22b3d2f..9662007 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -377,12 +377,12 @@ class tab_imu:
                 e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
 
                 nees += \
-                    e00 * e00 / c00 / c00 + \
-                    e01 * e01 / c01 / c01 + \
-                    e02 * e02 / c02 / c02 + \
-                    e03 * e03 / c03 / c03 + \
-                    e04 * e04 / c04 / c04 + \
-                    e05 * e05 / c05 / c05
+                    e00 * e00 / c00 + \
+                    e01 * e01 / c01 + \
+                    e02 * e02 / c02 + \
+                    e03 * e03 / c03 + \
+                    e04 * e04 / c04 + \
+                    e05 * e05 / c05
 
             if self.is_intrinsic:
                 dof += 6
@@ -415,12 +415,12 @@ class tab_imu:
                 e11 = interpolate_error(tt, t11, xt, x11)
 
                 nees += \
-                    e06 * e06 / c06 / c06 + \
-                    e07 * e07 / c07 / c07 + \
-                    e08 * e08 / c08 / c08 + \
-                    e09 * e09 / c09 / c09 + \
-                    e10 * e10 / c10 / c10 + \
-                    e11 * e11 / c11 / c11
+                    e06 * e06 / c06 + \
+                    e07 * e07 / c07 + \
+                    e08 * e08 / c08 + \
+                    e09 * e09 / c09 + \
+                    e10 * e10 / c10 + \
+                    e11 * e11 / c11
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 86c3973..2b3e693 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -322,12 +322,12 @@ class tab_msckf:
             e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
-- 
2.43.0


From d1bc82a11794f55c978e345496fa743d95561165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 66/76] fix: NEES takes angle errors in radians like their
 variances

---
 eval/tab_body.py     | 1 +
 eval/tab_fiducial.py | 6 +++---
 eval/tab_imu.py      | 1 +
 eval/tab_msckf.py    | 1 +
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/eval/tab_body.py b/eval/tab_body.py
index 893b1bf..87f8204 100644
--- a/eval/tab_body.py
+++ b/eval/tab_body.py
@@ -457,6 +457,7 @@ class tab_body:
             e07 = interpolate_error(tt, t07, xt, x07)
             e08 = interpolate_error(tt, t08, xt, x08)
             e09, e10, e11 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e09, e10, e11 = e09 * 1e-3, e10 * 1e-3, e11 * 1e-3  # mrad to rad
             e12 = interpolate_error(tt, t12, xt, x12)
             e13 = interpolate_error(tt, t13, xt, x13)
             e14 = interpolate_error(tt, t14, xt, x14)
diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index d87ea66..ddf0a80 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -252,9 +252,9 @@ class tab_fiducial:
                 qe = Rotation.from_quat([ew, ex, ey, ez], scalar_first=True)
                 q_err = qt * qe.inv()
                 error_euler = q_err.as_euler('XYZ')
-                e03.append(error_euler[0] * 1e3)
-                e04.append(error_euler[1] * 1e3)
-                e05.append(error_euler[2] * 1e3)
+                e03.append(error_euler[0])
+                e04.append(error_euler[1])
+                e05.append(error_euler[2])
             e03 = np.array(e03)
             e04 = np.array(e04)
             e05 = np.array(e05)
diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 9662007..62d71de 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -375,6 +375,7 @@ class tab_imu:
                 e01 = interpolate_error(tt, t01, xt, x01)
                 e02 = interpolate_error(tt, t02, xt, x02)
                 e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+                e03, e04, e05 = e03 * 1e-3, e04 * 1e-3, e05 * 1e-3  # mrad to rad
 
                 nees += \
                     e00 * e00 / c00 + \
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 2b3e693..a78160f 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -320,6 +320,7 @@ class tab_msckf:
             e01 = interpolate_error(tt, t01, xt, x01)
             e02 = interpolate_error(tt, t02, xt, x02)
             e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e03, e04, e05 = e03 * 1e-3, e04 * 1e-3, e05 * 1e-3  # mrad to rad
 
             nees = \
                 e00 * e00 / c00 + \
-- 
2.43.0


From 81dcf86602f3402f59c0cea419321164f82f8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 67/76] fix: gyroscope bias error compares with the truth at
 the time of the estimate

---
 eval/tab_imu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 62d71de..50747fc 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -227,9 +227,9 @@ class tab_imu:
             true_y = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_1"]
             true_z = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_2"]
 
-            w_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, w_bias_err_x[i, :], w_bias_x)
-            w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_err_y[i, :], w_bias_y)
-            w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_err_z[i, :], w_bias_z)
+            w_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, w_bias_t[i, 0:m], w_bias_x)
+            w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_t[i, 0:m], w_bias_y)
+            w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_t[i, 0:m], w_bias_z)
 
             fig.line(w_bias_t[i, :], w_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
             fig.line(w_bias_t[i, :], w_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-- 
2.43.0


From ebea19ac30527558c276e8ca8aa8dc361ad26f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 68/76] fix: bias errors are plotted for the samples a run has

---
 eval/tab_imu.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 50747fc..c712570 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -195,9 +195,9 @@ class tab_imu:
             a_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, time, est_y)
             a_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, time, est_z)
 
-            fig.line(time, a_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(time, a_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(time, a_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(time, a_bias_err_x[i, 0:m], color=self.colors[0], alpha=self.alpha)
+            fig.line(time, a_bias_err_y[i, 0:m], color=self.colors[1], alpha=self.alpha)
+            fig.line(time, a_bias_err_z[i, 0:m], color=self.colors[2], alpha=self.alpha)
 
         return fig
 
@@ -231,9 +231,21 @@ class tab_imu:
             w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_t[i, 0:m], w_bias_y)
             w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_t[i, 0:m], w_bias_z)
 
-            fig.line(w_bias_t[i, :], w_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            fig.line(
+                w_bias_t[i, 0:m],
+                w_bias_err_x[i, 0:m],
+                color=self.colors[0],
+                alpha=self.alpha)
+            fig.line(
+                w_bias_t[i, 0:m],
+                w_bias_err_y[i, 0:m],
+                color=self.colors[1],
+                alpha=self.alpha)
+            fig.line(
+                w_bias_t[i, 0:m],
+                w_bias_err_z[i, 0:m],
+                color=self.colors[2],
+                alpha=self.alpha)
 
         return fig
 
-- 
2.43.0


From 891279b371286df7817d3a788f6fafb30c19adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 69/76] fix: update durations are plotted in the microseconds
 they are logged in

---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 7379760..619d16f 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -130,7 +130,7 @@ def plot_update_timing(data_frames, rate=None):
                  y_axis_label='Count', title=f'{df_prefix} {df_id} Update Time')
     durations = np.array([])
     for df in data_frames:
-        durations = np.append(durations, df['duration_0'] / 1e3)
+        durations = np.append(durations, df['duration_0'])
     hist, edges = np.histogram(durations)
     fig.quad(top=hist, bottom=0, left=edges[:-1], right=edges[1:], legend_label='Duration [us]')
     if rate:
-- 
2.43.0


From c8510e9a159d5e6d777d18b116aec4a7eec3e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 70/76] fix: camera orientation is plotted as angles, not
 quaternion parts

---
 eval/tab_fiducial.py | 14 ++++++++++----
 eval/tab_msckf.py    | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index ddf0a80..a304971 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -22,7 +22,7 @@ import numpy as np
 from scipy.spatial.transform import Rotation
 from scipy.stats.distributions import chi2
 from utilities import calculate_alpha, get_colors, interpolate_error, interpolate_quat_error, \
-    plot_update_timing
+    lists_to_rot, plot_update_timing
 
 
 class tab_fiducial:
@@ -67,9 +67,15 @@ class tab_fiducial:
             title='Camera Orientation')
         for fiducial_df in self.fiducial_dfs:
             time = fiducial_df['time']
-            ang_x = fiducial_df['cam_ang_pos_0']
-            ang_y = fiducial_df['cam_ang_pos_1']
-            ang_z = fiducial_df['cam_ang_pos_2']
+            cam_rot = lists_to_rot(
+                fiducial_df['cam_ang_pos_0'],
+                fiducial_df['cam_ang_pos_1'],
+                fiducial_df['cam_ang_pos_2'],
+                fiducial_df['cam_ang_pos_3'])
+            cam_eul = [rot.as_euler('XYZ') for rot in cam_rot]
+            ang_x = [eul[0] for eul in cam_eul]
+            ang_y = [eul[1] for eul in cam_eul]
+            ang_z = [eul[2] for eul in cam_eul]
             fig.line(time, ang_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
             fig.line(time, ang_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
             fig.line(time, ang_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index a78160f..5bc5502 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -23,7 +23,7 @@ from bokeh.plotting import ColumnDataSource, figure
 import numpy as np
 from scipy.stats.distributions import chi2
 from utilities import calculate_alpha, get_colors, interpolate_error, interpolate_quat_error, \
-    plot_update_timing
+    lists_to_rot, plot_update_timing
 
 
 class tab_msckf:
@@ -67,9 +67,15 @@ class tab_msckf:
             title='Camera Orientation')
         for msckf_df in self.msckf_dfs:
             time = msckf_df['time']
-            ang_x = msckf_df['cam_ang_pos_0']
-            ang_y = msckf_df['cam_ang_pos_1']
-            ang_z = msckf_df['cam_ang_pos_2']
+            cam_rot = lists_to_rot(
+                msckf_df['cam_ang_pos_0'],
+                msckf_df['cam_ang_pos_1'],
+                msckf_df['cam_ang_pos_2'],
+                msckf_df['cam_ang_pos_3'])
+            cam_eul = [rot.as_euler('XYZ') for rot in cam_rot]
+            ang_x = [eul[0] for eul in cam_eul]
+            ang_y = [eul[1] for eul in cam_eul]
+            ang_z = [eul[2] for eul in cam_eul]
             fig.line(time, ang_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
             fig.line(time, ang_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
             fig.line(time, ang_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
-- 
2.43.0


From 4a2ff724e529b661f6ab5899ecee43ba6d5e5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 71/76] fix: angle errors in the statistics are rotation errors

---
 eval/stats.py | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/eval/stats.py b/eval/stats.py
index 1e96398..8d32b35 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -33,7 +33,8 @@ import os
 
 from input_parser import InputParser
 import numpy as np
-from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error
+from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, \
+    interpolate_quat_error
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -110,25 +111,17 @@ def body_err_acc(body_state_dfs, body_truth_dfs):
 
 def body_err_ang_pos(body_state_dfs, body_truth_dfs):
     """Calculate the body state angular error."""
-    # TODO: Calculate quaternion error
     RMSE_list = []
     for body_state, body_truth in zip(body_state_dfs, body_truth_dfs):
         true_time = body_truth['time'].to_list()
-        true_ang_pos_0 = body_truth['body_ang_pos_0'].to_list()
-        true_ang_pos_1 = body_truth['body_ang_pos_1'].to_list()
-        true_ang_pos_2 = body_truth['body_ang_pos_2'].to_list()
-        # true_ang_pos_3 = body_truth['body_ang_pos_3'].to_list()
+        true_ang_pos = [body_truth[f'body_ang_pos_{i}'].to_list() for i in range(4)]
 
         est_time = body_state['time'].to_list()
-        est_ang_pos_0 = body_state['body_ang_pos_0'].to_list()
-        est_ang_pos_1 = body_state['body_ang_pos_1'].to_list()
-        est_ang_pos_2 = body_state['body_ang_pos_2'].to_list()
-        # est_ang_pos_3 = body_state['body_ang_pos_3'].to_list()
-
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_pos_0, est_time, est_ang_pos_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_pos_1, est_time, est_ang_pos_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_pos_2, est_time, est_ang_pos_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        est_ang_pos = [body_state[f'body_ang_pos_{i}'].to_list() for i in range(4)]
+
+        err_ang_0, err_ang_1, err_ang_2 = interpolate_quat_error(
+            true_time, *true_ang_pos, est_time, *est_ang_pos)
+        RMSE_list.append(RMSE_from_vectors(err_ang_0, err_ang_1, err_ang_2) * 1e-3)
     return RMSE_list
 
 
@@ -210,19 +203,14 @@ def sensor_err_ang(sensor_dfs, body_truth_dfs_dict, prefix):
     for sensor_state, body_truth in zip(sensor_dfs, body_truth_dfs_dict):
         sensor_id = sensor_state.attrs['id']
         true_time = body_truth['time'].to_list()
-        true_ang_vel_0 = body_truth[f'{prefix}_ang_pos_{sensor_id}_0'].to_list()
-        true_ang_vel_1 = body_truth[f'{prefix}_ang_pos_{sensor_id}_1'].to_list()
-        true_ang_vel_2 = body_truth[f'{prefix}_ang_pos_{sensor_id}_2'].to_list()
+        true_ang = [body_truth[f'{prefix}_ang_pos_{sensor_id}_{i}'].to_list() for i in range(4)]
 
         est_time = sensor_state['time'].to_list()
-        est_ang_vel_0 = sensor_state[f'{prefix}_ang_pos_0'].to_list()
-        est_ang_vel_1 = sensor_state[f'{prefix}_ang_pos_1'].to_list()
-        est_ang_vel_2 = sensor_state[f'{prefix}_ang_pos_2'].to_list()
+        est_ang = [sensor_state[f'{prefix}_ang_pos_{i}'].to_list() for i in range(4)]
 
-        err_ang_vel_0 = interpolate_error(true_time, true_ang_vel_0, est_time, est_ang_vel_0)
-        err_ang_vel_1 = interpolate_error(true_time, true_ang_vel_1, est_time, est_ang_vel_1)
-        err_ang_vel_2 = interpolate_error(true_time, true_ang_vel_2, est_time, est_ang_vel_2)
-        RMSE_list.append(RMSE_from_vectors(err_ang_vel_0, err_ang_vel_1, err_ang_vel_2))
+        err_ang_0, err_ang_1, err_ang_2 = interpolate_quat_error(
+            true_time, *true_ang, est_time, *est_ang)
+        RMSE_list.append(RMSE_from_vectors(err_ang_0, err_ang_1, err_ang_2) * 1e-3)
     return RMSE_list
 
 
-- 
2.43.0


From f1c5c1c71c28f7efc14f9d3835766349c274ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 72/76] fix: heading errors are taken the short way round

---
 eval/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eval/stats.py b/eval/stats.py
index 8d32b35..30fcdfb 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -275,7 +275,8 @@ def gps_err_ang(gps_dfs, body_truth_dfs):
         index = next((i + 1 for i, x in enumerate(gps_state['is_initialized']) if x), None)
         if index and index < len(gps_state['is_initialized']):
             est_hdg = gps_state['ref_heading'][index]
-            error_list.append(est_hdg - true_hdg)
+            err_hdg = est_hdg - true_hdg
+            error_list.append(np.arctan2(np.sin(err_hdg), np.cos(err_hdg)))
 
     return error_list
 
-- 
2.43.0


From 4309a2989b5403ff92786c3bb0727036088ca768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 73/76] fix: output of an earlier evaluation does not stay with
 a run

---
 eval/run.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index 53b9e0a..233020f 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -70,15 +70,21 @@ def run_sim(yaml_path: str):
                           stderr=subprocess.PIPE)
 
     # Write stdout
+    stdout_path = os.path.join(yaml_dir, 'sim.stdout')
     if (proc.stdout):
-        with open(os.path.join(yaml_dir, 'sim.stdout'), 'wb') as output:
+        with open(stdout_path, 'wb') as output:
             output.write(proc.stdout)
+    elif (os.path.isfile(stdout_path)):
+        os.remove(stdout_path)
 
     # Write stderr
+    stderr_path = os.path.join(yaml_dir, 'sim.stderr')
     if (proc.stderr):
         print(f'Warning: run {yaml_path} has errors', flush=True)
-        with open(os.path.join(yaml_dir, 'sim.stderr'), 'wb') as output:
+        with open(stderr_path, 'wb') as output:
             output.write(proc.stderr)
+    elif (os.path.isfile(stderr_path)):
+        os.remove(stderr_path)
 
 
 def generate_mc_from_yaml(
-- 
2.43.0


From 4a4ad888f8574ec7de40eaa3fc93bf4363afd3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:16 +0000
Subject: [PATCH 74/76] fix: extrapolate the attitude in the local frame when
 deciding on a clone

---
 src/ekf/ekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index eb1f05e..ae20d23 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -489,7 +489,7 @@ void EKF::AugmentStateIfNeeded()
         ang_vel_b_in_l[2] * delta_time);
 
       Eigen::Vector3d delta_ang = QuatToRotVec(
-        m_state.body_state.ang_b_to_l * RotVecToQuat(rot_vec).inverse() *
+        RotVecToQuat(rot_vec).inverse() * m_state.body_state.ang_b_to_l *
         last_aug.ang_b_to_l.inverse());
 
       if (delta_pos.norm() > m_augmenting_pos_error || delta_ang.norm() > m_augmenting_ang_error) {
-- 
2.43.0


From eb62e2ab4f46cb600d0761bcaec5f2eb93965db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:33 +0000
Subject: [PATCH 75/76] fix: runs that lack a log are compared with their own
 truth

---
 eval/report.py    | 16 ++++++++--------
 eval/stats.py     |  8 +++++---
 eval/utilities.py |  8 ++++++++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/eval/report.py b/eval/report.py
index 8c33ae8..9ad7540 100755
--- a/eval/report.py
+++ b/eval/report.py
@@ -42,7 +42,7 @@ from tab_fiducial import tab_fiducial
 from tab_gps import tab_gps
 from tab_imu import tab_imu
 from tab_msckf import tab_msckf
-from utilities import find_and_read_data_frames, generate_mc_lists
+from utilities import find_and_read_data_frames, generate_mc_lists, match_runs
 
 
 # TODO(jhartzer): Split for loop into thread pool
@@ -67,13 +67,13 @@ def plot_sim_results(config_sets, args):
         for key in body_state_dfs_dict:
             body_state_dfs = body_state_dfs_dict[key]
             aug_state_dfs = aug_state_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[key]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[key], body_state_dfs)
             tabs.append(tab_body(body_state_dfs, aug_state_dfs, body_truth_dfs, args).get_tab())
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
         for key in sorted(imu_dfs_dict.keys()):
             imu_dfs = imu_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], imu_dfs)
             tabs.append(tab_imu(imu_dfs, body_truth_dfs, args).get_tab())
 
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
@@ -82,22 +82,22 @@ def plot_sim_results(config_sets, args):
         for key in sorted(mskcf_dfs_dict.keys()):
             mskcf_dfs = mskcf_dfs_dict[key]
             tri_dfs = tri_dfs_dict[key]
-            feat_dfs = feat_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            feat_dfs = match_runs(feat_dfs_dict[0], tri_dfs)
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], mskcf_dfs)
             tabs.append(tab_msckf(mskcf_dfs, tri_dfs, feat_dfs, body_truth_dfs, args).get_tab())
 
         fiducial_dfs_dict = find_and_read_data_frames(data_dirs, 'fiducial')
         board_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'board_truth')
         for key in sorted(fiducial_dfs_dict.keys()):
             fiducial_dfs = fiducial_dfs_dict[key]
-            board_dfs = board_truth_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            board_dfs = match_runs(board_truth_dfs_dict[0], fiducial_dfs)
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], fiducial_dfs)
             tabs.append(tab_fiducial(fiducial_dfs, board_dfs, body_truth_dfs, args).get_tab())
 
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
             gps_dfs = gps_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], gps_dfs)
             tabs.append(tab_gps(gps_dfs, body_truth_dfs, args).get_tab())
 
         # Hide legends on click
diff --git a/eval/stats.py b/eval/stats.py
index 30fcdfb..b10cef4 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -34,7 +34,7 @@ import os
 from input_parser import InputParser
 import numpy as np
 from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, \
-    interpolate_quat_error
+    interpolate_quat_error, match_runs
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -317,7 +317,7 @@ def calc_sim_stats(config_sets, args):
         body_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'body_truth')
         for key in body_state_dfs_dict:
             body_state_dfs = body_state_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[key]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[key], body_state_dfs)
             stats[f'body_{key}_err_pos'] = body_err_pos(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_vel'] = body_err_vel(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_acc'] = body_err_acc(body_state_dfs, body_truth_dfs)
@@ -327,9 +327,9 @@ def calc_sim_stats(config_sets, args):
             stats[f'body_{key}_states'] = body_states(body_state_dfs)
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
-        body_truth_dfs = body_truth_dfs_dict[0]
         for key in sorted(imu_dfs_dict.keys()):
             imu_dfs = imu_dfs_dict[key]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], imu_dfs)
             stats[f'imu_{key}_err_pos'] = sensor_err_pos(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_ang'] = sensor_err_ang(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_acc_bias'] = imu_err_bias(imu_dfs, body_truth_dfs, 'acc')
@@ -339,6 +339,7 @@ def calc_sim_stats(config_sets, args):
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
         for key in sorted(mskcf_dfs_dict.keys()):
             mskcf_dfs = mskcf_dfs_dict[key]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], mskcf_dfs)
             stats[f'mskcf_{key}_err_pos'] = sensor_err_pos(mskcf_dfs, body_truth_dfs, 'cam')
             stats[f'mskcf_{key}_err_ang'] = sensor_err_ang(mskcf_dfs, body_truth_dfs, 'cam')
 
@@ -352,6 +353,7 @@ def calc_sim_stats(config_sets, args):
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
             gps_dfs = gps_dfs_dict[key]
+            body_truth_dfs = match_runs(body_truth_dfs_dict[0], gps_dfs)
             stats[f'gps_{key}_err_init_pos'] = gps_err_pos(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_err_init_ang'] = gps_err_ang(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_init_count'] = gps_init_count(gps_dfs)
diff --git a/eval/utilities.py b/eval/utilities.py
index 619d16f..03f43f5 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -200,10 +200,18 @@ def find_and_read_data_frames(directories, prefix):
             else:
                 file_id = 0
             df.attrs['id'] = file_id
+            df.attrs['run'] = directory
             data_frame_sets[file_id].append(df)
     return data_frame_sets
 
 
+def match_runs(data_frames, run_data_frames):
+    """Select the data frames of the runs of another list of data frames, in its order."""
+    by_run = {df.attrs['run']: df for df in data_frames}
+    runs = [df.attrs['run'] for df in run_data_frames]
+    return [by_run[run] for run in runs if run in by_run]
+
+
 def generate_mc_lists(args):
     """Generate sets of yaml configuration files to plot."""
     mc_lists = []
-- 
2.43.0


From ad8ca4f1a2e7fc676b78a3efdd190019843cb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:29 +0000
Subject: [PATCH 76/76] fix: the animation shows short logs and the end of long
 ones

The number of rows per frame was rounded down, so logs of fewer rows than
frames drew nothing and others ended before their last row.
---
 eval/animate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/animate.py b/eval/animate.py
index 9977ace..7fa4da7 100755
--- a/eval/animate.py
+++ b/eval/animate.py
@@ -86,9 +86,9 @@ def generate_animation(config_sets, args):
             for key in body_dfs_dict:
                 body_dfs = body_dfs_dict[key]
                 for body_df in body_dfs:
-                    ppf = int(len(body_df['body_pos_0']) / frame_count)
-                    max_n = int(tail_time * fps * ppf)
-                    n = int(t * ppf) + 1
+                    row_count = len(body_df['body_pos_0'])
+                    max_n = max(1, int(row_count * tail_time / reset_time))
+                    n = max(1, int(row_count * (t + 1) / frame_count))
 
                     pos_x = np.array(body_df['body_pos_0'][max(0, n - max_n):n])
                     pos_y = np.array(body_df['body_pos_1'][max(0, n - max_n):n])
-- 
2.43.0


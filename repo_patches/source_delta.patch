From f656539062dcca1d4f2fd11bd6923b1da143c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 01/39] fix: evaluate Gamma_SO3 by its series for small angles

---
 src/math/lie_group.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/math/lie_group.cpp b/src/math/lie_group.cpp
index 5d9221e..eaf6bf1 100644
--- a/src/math/lie_group.cpp
+++ b/src/math/lie_group.cpp
@@ -36,14 +36,26 @@ Eigen::Matrix3d Gamma_SO3(const Eigen::Vector3d& w, int m) {
   assert(m >= 0);
   Eigen::Matrix3d I = Eigen::Matrix3d::Identity();
   double theta = w.norm();
-  if (theta < TOLERANCE) {
-    return (1.0 / factorial(m))
-           * I;    // TODO: There is a better small value approximation for
-                   // exp() given in Trawny p.19
-  }
   Eigen::Matrix3d A = skew(w);
   double theta2 = theta * theta;
 
+  // The closed forms below lose all their digits for small angles, so sum the
+  // defining series (using A^3 = -theta^2 A) instead
+  const double SMALL_ANGLE = 0.1;
+  if (theta < SMALL_ANGLE) {
+    double c0 = 1.0 / factorial(m);
+    double t1 = c0 / (m + 1);    // 1 / (m + 1)!
+    double t2 = t1 / (m + 2);    // 1 / (m + 2)!
+    double c1 = 0, c2 = 0;
+    for (int k = 0; k < 6; ++k) {
+      c1 += t1;
+      c2 += t2;
+      t1 *= -theta2 / ((m + 2 * k + 2) * (m + 2 * k + 3));
+      t2 *= -theta2 / ((m + 2 * k + 3) * (m + 2 * k + 4));
+    }
+    return c0 * I + c1 * A + c2 * A * A;
+  }
+
   // Closed form solution for the first 3 cases
   switch (m) {
     case 0:    // Exp map of SO(3)
-- 
2.43.0


From 7cb94c17602cc57799ae05dee22ecaf0e7eb8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 02/39] fix: small-angle bias blocks of the IMU state
 transition were zero or noise

---
 src/filter/inekf/propagation/imu_propagation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index abb038c..4c15b3c 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -304,11 +304,13 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
                  * (wx2 * ax * wx2));
 
 
-  /// TODO: Get better approximation using taylor series when theta < tol
-  const double tol = 1e-6;
-  if (theta < tol) {
-    Phi25L = (1 / 2) * ax * dt2;
-    Phi35L = (1 / 6) * ax * dt3;
+  // The closed forms above cancel catastrophically for small angles, use the
+  // Taylor series instead
+  const double tol = 1e-4;
+  if (std::fabs(thetadt) < tol) {
+    Phi25L = (1.0 / 2.0) * ax * dt2 - (1.0 / 6.0) * (wx * ax + ax * wx) * dt3;
+    Phi35L = (1.0 / 6.0) * ax * dt3
+             - (1.0 / 24.0) * (2.0 * wx * ax + ax * wx) * dt3 * dt;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


From 5e38dd78d426523eabe3389bb54065dcb7a45bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 03/39] fix: adding an augmented state dropped the process
 noise of earlier ones

---
 src/state/robot_state.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 88c203c..4279a55 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -148,12 +148,13 @@ int RobotState::add_aug_state(const Eigen::Vector3d& aug,
   int dimTheta = this->dimTheta();
   Eigen::MatrixXd Qc_aug = Eigen::MatrixXd::Zero(dimQc + 3, dimQc + 3);
 
-  Qc_aug.topLeftCorner(this->dimX(), this->dimX())
-      = this->Qc_.topLeftCorner(this->dimX(), this->dimX());
-  Qc_aug.bottomLeftCorner(dimTheta, this->dimX())
-      = this->Qc_.bottomLeftCorner(dimTheta, this->dimX());
-  Qc_aug.topRightCorner(this->dimX(), dimTheta)
-      = this->Qc_.topRightCorner(this->dimX(), dimTheta);
+  int dimState = dimQc - dimTheta;
+  Qc_aug.topLeftCorner(dimState, dimState)
+      = this->Qc_.topLeftCorner(dimState, dimState);
+  Qc_aug.bottomLeftCorner(dimTheta, dimState)
+      = this->Qc_.bottomLeftCorner(dimTheta, dimState);
+  Qc_aug.topRightCorner(dimState, dimTheta)
+      = this->Qc_.topRightCorner(dimState, dimTheta);
   Qc_aug.bottomRightCorner(dimTheta, dimTheta)
       = this->Qc_.bottomRightCorner(dimTheta, dimTheta);
   Qc_aug.block<3, 3>(dimQc - dimTheta, dimQc - dimTheta) = noise_cov;
-- 
2.43.0


From bb03f280d6315c897fdaf96278bf8320b834a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 04/39] fix: velocity correction applied a future measurement
 after skipping stale ones

---
 src/filter/inekf/correction/velocity_correction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 5e7f3f3..1e81c5d 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -105,10 +105,14 @@ bool VelocityCorrection::Correct(RobotState& state) {
         return false;
       }
       measured_velocity = sensor_data_buffer_ptr_->front();
+      t_diff = measured_velocity->get_time() - state.get_propagate_time();
+      // The next measurement may not be due yet, keep it for later
+      if (t_diff >= 0) {
+        sensor_data_buffer_mutex_ptr_->unlock();
+        return false;
+      }
       sensor_data_buffer_ptr_->pop();
       sensor_data_buffer_mutex_ptr_->unlock();
-
-      t_diff = measured_velocity->get_time() - state.get_propagate_time();
     }
   }
 
-- 
2.43.0


From 3fe3f3922beb2a0645120f59ab3bebdf145e297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 05/39] fix: initial velocity ignored the sensor mounting and
 scale

---
 src/filter/inekf/correction/velocity_correction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 1e81c5d..2700629 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -170,7 +170,8 @@ bool VelocityCorrection::initialize(RobotState& state) {
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
   // Apply the rotation to map the body velocity to the world frame
-  state.set_velocity(state.get_rotation() * measured_velocity->get_velocity());
+  state.set_velocity(state.get_rotation() * R_vel2body_ * velocity_scale_
+                     * measured_velocity->get_velocity());
   state.set_time(measured_velocity->get_time());
   return true;
 }
-- 
2.43.0


From f0e4eccd4759869262bfee94b166f8fb2af3ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 06/39] fix: check the sensor buffers for data under their lock

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 5 +++--
 src/filter/inekf/correction/velocity_correction.cpp          | 5 +++--
 src/filter/inekf/propagation/imu_propagation.cpp             | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 053f3d1..cfa536a 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -259,12 +259,13 @@ bool LeggedKinematicsCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for leg encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the lates measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/correction/velocity_correction.cpp b/src/filter/inekf/correction/velocity_correction.cpp
index 2700629..8a46c58 100644
--- a/src/filter/inekf/correction/velocity_correction.cpp
+++ b/src/filter/inekf/correction/velocity_correction.cpp
@@ -154,12 +154,13 @@ bool VelocityCorrection::initialize(RobotState& state) {
 
   // Get measurement from sensor data buffer
   // Do not initialize if the buffer is emptys
-  while (sensor_data_buffer_ptr_->empty()) {
+  sensor_data_buffer_mutex_ptr_.get()->lock();
+  if (sensor_data_buffer_ptr_->empty()) {
     // std::cout << "Waiting for velocity related encoder data..." << std::endl;
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
 
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   // Get the latest measurement
   while (sensor_data_buffer_ptr_->size() > 1) {
     // std::cout << "Discarding old sensor data..." << std::endl;
diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 4c15b3c..6a437bd 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -492,10 +492,11 @@ const bool ImuPropagation::get_bias_initialized() const {
 // IMU propagation initialization for robot state
 bool ImuPropagation::set_initial_state(RobotState& state) {
   // Do not initialize if the buffer is emptys
+  sensor_data_buffer_mutex_ptr_.get()->lock();
   if (sensor_data_buffer_ptr_->empty()) {
+    sensor_data_buffer_mutex_ptr_.get()->unlock();
     return false;
   }
-  sensor_data_buffer_mutex_ptr_.get()->lock();
   const ImuMeasurementPtr imu_measurement = sensor_data_buffer_ptr_->front();
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
-- 
2.43.0


From d51c4f28c42c5228b94de39b7cc7101996b8f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 07/39] fix: legged correction applied measurements it reported
 as skipped

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index cfa536a..928eeed 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -82,7 +82,8 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
 
       t_diff = kinematics_measurement->get_time() - state.get_propagate_time();
     }
-  } else if (t_diff > t_diff_thres_) {
+  }
+  if (t_diff > t_diff_thres_) {
     std::cerr
         << std::setprecision(20)
         << "Measurement received in the velocity correction is way faster than "
@@ -92,6 +93,7 @@ bool LeggedKinematicsCorrection::Correct(RobotState& state) {
         << ", this measurement time: " << kinematics_measurement->get_time()
         << ", time diff: " << t_diff << ", set threshold: " << t_diff_thres_
         << std::endl;
+    return false;
   }
 
   state.set_time(kinematics_measurement->get_time());
-- 
2.43.0


From 1c4a5fdba0b31c0269b0df2bd01992bf8fd71b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 08/39] fix: left-invariant correction mapped the wrong error
 type

---
 src/filter/inekf/inekf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/inekf/inekf.cpp b/src/filter/inekf/inekf.cpp
index 8e50d9f..fbf4f72 100644
--- a/src/filter/inekf/inekf.cpp
+++ b/src/filter/inekf/inekf.cpp
@@ -122,7 +122,7 @@ void CorrectLeftInvariant(const Eigen::MatrixXd& Z, const Eigen::MatrixXd& H,
   }
 
   // Map from right invariant to left invariant error temporarily
-  if (error_type == ErrorType::LeftInvariant) {
+  if (error_type == ErrorType::RightInvariant) {
     Eigen::MatrixXd AdjInv = Eigen::MatrixXd::Identity(dimP, dimP);
     AdjInv.block(0, 0, dimP - dimTheta, dimP - dimTheta)
         = lie_group::Adjoint_SEK3(state.get_Xinv());
-- 
2.43.0


From e109c74f54b2811945ae72ce2caeb877c040962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 09/39] fix: bias initialisation without samples produced NaN
 biases

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 6a437bd..9e3cc2e 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -462,6 +462,9 @@ void ImuPropagation::InitImuBias() {
 
     // Set this measurement to be the previous measurement
     prev_imu_measurement_ = imu_measurement;
+  } else if (bias_init_vec_.empty()) {
+    // No sample to average, keep the prior
+    bias_initialized_ = true;
   } else {
     // Compute average bias of stored data
     Eigen::Matrix<double, 6, 1> avg = Eigen::Matrix<double, 6, 1>::Zero();
-- 
2.43.0


From e366bb09ecf20e365d82340578ca41a298b95e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 10/39] fix: stepping before initialisation dereferenced a null
 measurement

---
 src/filter/inekf/propagation/imu_propagation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 9e3cc2e..9a4617e 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -141,6 +141,11 @@ bool ImuPropagation::Propagate(RobotState& state) {
   sensor_data_buffer_ptr_->pop();
   sensor_data_buffer_mutex_ptr_.get()->unlock();
 
+  // Nothing to integrate until there is a previous measurement
+  if (!imu_measurement) {
+    return false;
+  }
+
   double dt = imu_measurement->get_time() - state.get_propagate_time();
   state.set_time(imu_measurement->get_time());
   state.set_propagate_time(imu_measurement->get_time());
@@ -543,5 +548,6 @@ void ImuPropagation::clear() {
     sensor_data_buffer_ptr_->pop();
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
+  prev_imu_measurement_ = nullptr;
 }
 }    // namespace filter::inekf
\ No newline at end of file
-- 
2.43.0


From 09311a241bcdd0e951e0768085cae713dd3d9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 11/39] fix: initial body angular velocity was left in the IMU
 frame and biased

---
 src/filter/inekf/propagation/imu_propagation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 9a4617e..1585ec1 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -520,7 +520,8 @@ bool ImuPropagation::set_initial_state(RobotState& state) {
 
   state.set_rotation(R0);
   state.set_position(p0);
-  state.set_body_angular_velocity(imu_measurement->get_angular_velocity());
+  state.set_body_angular_velocity(
+      R_imu2body_ * imu_measurement->get_angular_velocity() - bg0_);
 
   // Set the initial bias
   state.set_gyroscope_bias(bg0_);
-- 
2.43.0


From d800c82d14d335f5923bdbaf557759f123689ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 12/39] fix: destroying a gyro filter whose thread was never
 started terminated the program

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index c749132..6b9b9b9 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -325,7 +325,9 @@ ImuAngVelEKF::ImuAngVelEKF(const std::string& yaml_filepath)
 // IMU filter destructor
 ImuAngVelEKF::~ImuAngVelEKF() {
   stop_thread_ = true;
-  imu_filter_thread_.join();
+  if (imu_filter_thread_.joinable()) {
+    imu_filter_thread_.join();
+  }
   imu_propagate_input_outfile_.close();
   imu_propagate_outfile_.close();
   imu_ang_vel_outfile_.close();
-- 
2.43.0


From 6bafb91ee1a18cf5a18296e2c66008b7cba6a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 13/39] fix: gyro filter bias sample count was uninitialised in
 one constructor

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 6b9b9b9..505c29a 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -65,6 +65,10 @@ ImuAngVelEKF::ImuAngVelEKF(
           ? config_["settings"]["correction_method"].as<int>()
           : 0);
 
+  init_bias_size_ = config_["settings"]["init_bias_size"]
+                        ? config_["settings"]["init_bias_size"].as<int>()
+                        : 250;
+
   // Set the initial bias
   static_bias_initialization_
       = config_["settings"]["static_bias_initialization"]
-- 
2.43.0


From e5f52e494e5573ac6a64513676c1a08f914c3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 14/39] fix: gyro filter popped from queues that a concurrent
 clear may have emptied

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 505c29a..26ca836 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -653,14 +653,21 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     imu_data_buffer_mutex_ptr_.get()->lock();
-    imu_data_buffer_ptr_.get()->pop();
+    // The buffer may have been cleared in the meantime
+    if (!imu_data_buffer_ptr_->empty()
+        && imu_data_buffer_ptr_->front() == imu_measurement) {
+      imu_data_buffer_ptr_.get()->pop();
+    }
     imu_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_.get()->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_.get()->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -677,7 +684,10 @@ void ImuAngVelEKF::SingleImuAngVelCorrection() {
     }
 
     ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
+    if (!ang_vel_data_buffer_ptr_->empty()
+        && ang_vel_data_buffer_ptr_->front() == ang_vel_measurement) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
     ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
@@ -693,13 +703,11 @@ void ImuAngVelEKF::AngVelCorrection() {
 
   AngularVelocityMeasurementPtr ang_vel_measurement
       = ang_vel_data_buffer_ptr_->front();
+  ang_vel_data_buffer_ptr_->pop();
   ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
 
   if (ang_vel_measurement && !latest_imu_measurement_) {
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 
@@ -710,10 +718,6 @@ void ImuAngVelEKF::AngVelCorrection() {
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
     filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
-
-    ang_vel_data_buffer_mutex_ptr_.get()->lock();
-    ang_vel_data_buffer_ptr_->pop();
-    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
     return;
   }
 }
-- 
2.43.0


From 5020a643c8defff365e90b9fe920b733216d1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 15/39] fix: clearing a gyro filter dereferenced null buffers
 and left others uncleared

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 26ca836..de3935a 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -878,19 +878,39 @@ ImuAngVelEKF::get_filtered_imu_data_buffer_and_mutex_ptr() {
 };
 
 void ImuAngVelEKF::clear() {
+  // Clear gyro propagation data buffer
+  if (gyro_prop_data_buffer_ptr_) {
+    gyro_prop_data_buffer_mutex_ptr_.get()->lock();
+    while (!gyro_prop_data_buffer_ptr_->empty()) {
+      gyro_prop_data_buffer_ptr_->pop();
+    }
+    gyro_prop_data_buffer_mutex_ptr_.get()->unlock();
+  }
+
   // Clear Imu data buffer
-  imu_data_buffer_mutex_ptr_.get()->lock();
-  while (!imu_data_buffer_ptr_->empty()) {
-    imu_data_buffer_ptr_->pop();
+  if (imu_data_buffer_ptr_) {
+    imu_data_buffer_mutex_ptr_.get()->lock();
+    while (!imu_data_buffer_ptr_->empty()) {
+      imu_data_buffer_ptr_->pop();
+    }
+    imu_data_buffer_mutex_ptr_.get()->unlock();
+  }
+  for (int i = 0; i < imu_data_buffer_ptrs_.size(); i++) {
+    imu_data_buffer_mutex_ptrs_[i].get()->lock();
+    while (!imu_data_buffer_ptrs_[i]->empty()) {
+      imu_data_buffer_ptrs_[i]->pop();
+    }
+    imu_data_buffer_mutex_ptrs_[i].get()->unlock();
   }
-  imu_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear angular velocity data buffer
-  ang_vel_data_buffer_mutex_ptr_.get()->lock();
-  while (!ang_vel_data_buffer_ptr_->empty()) {
-    ang_vel_data_buffer_ptr_->pop();
+  if (ang_vel_data_buffer_ptr_) {
+    ang_vel_data_buffer_mutex_ptr_.get()->lock();
+    while (!ang_vel_data_buffer_ptr_->empty()) {
+      ang_vel_data_buffer_ptr_->pop();
+    }
+    ang_vel_data_buffer_mutex_ptr_.get()->unlock();
   }
-  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
 
   // Clear filtered_imu_data_buffer
   filtered_imu_data_buffer_mutex_ptr_.get()->lock();
-- 
2.43.0


From 4b9fd5c2a37ad2932dd164faaa46a47a5673c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 16/39] fix: multi-IMU gyro filter ignored its first IMU and
 repeated outputs

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index de3935a..e2ebea7 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -355,11 +355,10 @@ void ImuAngVelEKF::add_imu_correction(
     // For single imu version:
     imu_data_buffer_ptr_ = imu_data_buffer_ptr;
     imu_data_buffer_mutex_ptr_ = imu_data_buffer_mutex_ptr;
-  } else {
-    // For all other versions:
-    imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
-    imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
   }
+  // For all other versions:
+  imu_data_buffer_ptrs_.push_back(imu_data_buffer_ptr);
+  imu_data_buffer_mutex_ptrs_.push_back(imu_data_buffer_mutex_ptr);
 }
 
 void ImuAngVelEKF::add_ang_vel_correction(
@@ -579,7 +578,6 @@ void ImuAngVelEKF::SingleImuCorrection() {
 
 void ImuAngVelEKF::MultiImuCorrection() {
   ImuMeasurementPtr imu_measurement = nullptr;
-  ImuMeasurementPtr fused_ang_imu = nullptr;
 
   // Bias corrected IMU measurements
   for (int i = 0; i < imu_data_buffer_mutex_ptrs_.size(); i++) {
@@ -593,6 +591,7 @@ void ImuAngVelEKF::MultiImuCorrection() {
     imu_data_buffer_ptrs_[i].get()->pop();
     imu_data_buffer_mutex_ptrs_[i].get()->unlock();
 
+    ImuMeasurementPtr fused_ang_imu = nullptr;
     // Only perform correction step if with data prior to the propagation time
     // and the time gap is smaller than a threshold
     if (last_propagate_time_ == -1
-- 
2.43.0


From 96b9197eb819b29322808221de9d41b9ccbd9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 17/39] fix: single-IMU gyro filter stalled on stale samples
 and without gyro propagation

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index e2ebea7..59237fe 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -562,11 +562,19 @@ void ImuAngVelEKF::SingleImuCorrection() {
   /// TODO: double check if we need absolute here?
   // if (last_propagate_time_ == -1
   // || last_propagate_time_ - imu_measurement->get_time() <= t_thres_) {
-  if (last_propagate_time_ - imu_measurement->get_time() <= t_thres_
-      && last_propagate_time_ >= imu_measurement->get_time()) {
+  // There is no propagation time to compare with in a random walk
+  double t_diff = propagation_method_ == RANDOM_WALK
+                      ? 0
+                      : last_propagate_time_ - imu_measurement->get_time();
+  if (t_diff >= 0) {
     imu_data_buffer_ptr_.get()->pop();
     imu_data_buffer_mutex_ptr_.get()->unlock();
 
+    // Drop the measurement if it is too old
+    if (t_diff > t_thres_) {
+      return;
+    }
+
     auto fused_ang_imu = AngVelFilterCorrectIMU(imu_measurement);
     filtered_imu_data_buffer_mutex_ptr_.get()->lock();
     filtered_imu_data_buffer_ptr_->push(fused_ang_imu);
-- 
2.43.0


From c747efb2a5e77c23ca005d34a1f998db633244c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 18/39] fix: gyro filter bias initialisation without samples
 produced NaN

---
 src/imu_filter/imu_ang_vel_ekf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imu_filter/imu_ang_vel_ekf.cpp b/src/imu_filter/imu_ang_vel_ekf.cpp
index 59237fe..b62d70f 100644
--- a/src/imu_filter/imu_ang_vel_ekf.cpp
+++ b/src/imu_filter/imu_ang_vel_ekf.cpp
@@ -504,7 +504,9 @@ void ImuAngVelEKF::InitializeFilter() {
     for (int i = 0; i < bias_init_vec_.size(); ++i) {
       avg = (avg + bias_init_vec_[i]).eval();
     }
-    avg = (avg / bias_init_vec_.size()).eval();
+    if (!bias_init_vec_.empty()) {
+      avg = (avg / bias_init_vec_.size()).eval();
+    }
     std::cout << "Biases in the gyro filter are initialized to: "
               << avg.transpose() << std::endl;
 
-- 
2.43.0


From d0372cd5ab47b00a243d22bce7297aab12d531bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 19/39] fix: pose logger dropped pending states at shutdown and
 mixed logs across a reset

---
 include/drift/estimator/inekf_estimator.h |  1 +
 src/estimator/inekf_estimator.cpp         | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 192804c..2414902 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -300,6 +300,7 @@ class InekfEstimator {
                                        // body frame logger
   double pose_log_rate_;               // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
+  std::mutex log_file_mutex_;          // Mutex of the log files
   std::thread pose_logging_thread_;    // Pose logging thread
   std::mutex
       robot_state_log_queue_mutex_;    // Mutex of the robot state log queue
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 9dad73d..00e52f7 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -132,11 +132,20 @@ void InekfEstimator::StartLoggingThread() {
 
 void InekfEstimator::PoseLoggingThread() {
   // logger, tum style
-  while (stop_signal_ == false) {
+  while (true) {
+    // Finish the queue before stopping
+    bool stopping = stop_signal_;
+
+    // Keep the log files from being switched while a state is written
+    std::lock_guard<std::mutex> file_lock(log_file_mutex_);
+
     // Get new pose data for logger
     robot_state_log_queue_mutex_.lock();
     if (robot_state_log_queue_ptr_.get()->empty()) {
       robot_state_log_queue_mutex_.unlock();
+      if (stopping) {
+        break;
+      }
       continue;
     }
 
@@ -312,11 +321,13 @@ void InekfEstimator::clear() {
   enabled_ = false;
 
   // Clear current log queue and open a new file for logging
+  std::lock_guard<std::mutex> file_lock(log_file_mutex_);
   robot_state_log_queue_mutex_.lock();
   while (!robot_state_log_queue_ptr_.get()->empty()) {
     robot_state_log_queue_ptr_.get()->pop();
   }
   robot_state_log_queue_mutex_.unlock();
+  last_pub_t_ = 0.0;
   if (enable_pose_logger_) {
     outfile_.close();
     outfile_.open(pose_log_file_ + '_' + std::to_string(++init_count_)
-- 
2.43.0


From 16377eef71b4d7c1431114865594bce0e9af9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 20/39] fix: default-constructed estimator used uninitialised
 settings

---
 include/drift/estimator/inekf_estimator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/drift/estimator/inekf_estimator.h b/include/drift/estimator/inekf_estimator.h
index 2414902..2064219 100644
--- a/include/drift/estimator/inekf_estimator.h
+++ b/include/drift/estimator/inekf_estimator.h
@@ -292,13 +292,13 @@ class InekfEstimator {
   std::shared_ptr<std::mutex>
       robot_state_queue_mutex_ptr_;    // Mutex of the robot
                                        // state queue
-  bool enable_pose_logger_;            // Boolean value indicating whether
+  bool enable_pose_logger_ = false;    // Boolean value indicating whether
                                        // the filter should log the pose
   std::ofstream outfile_;              // Output file stream for pose logger
   std::ofstream vel_outfile_;          // Output file stream for velocity logger
   std::ofstream vel_body_outfile_;     // Output file stream for velocity in the
                                        // body frame logger
-  double pose_log_rate_;               // Pose logger rate
+  double pose_log_rate_ = 10.0;        // Pose logger rate
   double last_pub_t_ = 0.0;            // Last published time for pose logger
   std::mutex log_file_mutex_;          // Mutex of the log files
   std::thread pose_logging_thread_;    // Pose logging thread
@@ -307,9 +307,9 @@ class InekfEstimator {
   RobotStateQueuePtr robot_state_log_queue_ptr_;    // Pointer to the robot
                                                     // state log queue
 
-  double rotation_cov_val_;                  // Covariance value for rotation
-  double velocity_cov_val_;                  // Covariance value for velocity
-  double position_cov_val_;                  // Covariance value for position
+  double rotation_cov_val_ = 0.03;           // Covariance value for rotation
+  double velocity_cov_val_ = 0.01;           // Covariance value for velocity
+  double position_cov_val_ = 0.00001;        // Covariance value for position
   std::atomic<bool> stop_signal_ = false;    // Stop signal for pose logger
   bool enabled_slip_estimator_ = false;      // Slip estimator enabled
   std::string pose_log_file_ = "";           // Pose log file path
-- 
2.43.0


From 279503af9841209322b05b7a5c3f028642a677a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 21/39] fix: time stamps and rates of a new or cleared robot
 state were undefined or stale

---
 include/drift/state/robot_state.h | 7 ++++---
 src/state/robot_state.cpp         | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/drift/state/robot_state.h b/include/drift/state/robot_state.h
index ad6c237..90b5d5f 100644
--- a/include/drift/state/robot_state.h
+++ b/include/drift/state/robot_state.h
@@ -637,10 +637,11 @@ class RobotState {
                                  // corresponding
                                  // correction map's value
 
-  double t_;                     // The latest time when the state X_ is updated
-  double t_prop_;         // The latest time when the state X_ is propagated
+  double t_ = 0;                 // The latest time when the state X_ is updated
+  double t_prop_ = 0;     // The latest time when the state X_ is propagated
   Eigen::MatrixXd Qc_;    // Continuous noise covariance matrix
-  Eigen::Vector3d body_ang_vel_;    // Latest angular velocity
+  Eigen::Vector3d body_ang_vel_
+      = Eigen::Vector3d::Zero();    // Latest angular velocity
   bool enable_imu_bias_update_ = false;
   int slip_flag_ = 0;               // 0: no slip, 1: slip;
 };
diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 4279a55..e823a69 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -423,6 +423,10 @@ void RobotState::clear() {
   column_id_to_corr_map_
       = std::vector<std::shared_ptr<int>>(this->dimX(), nullptr);
   body_ang_vel_ = Eigen::Vector3d::Zero();
+  t_ = 0;
+  t_prop_ = 0;
+  enable_imu_bias_update_ = false;
+  slip_flag_ = 0;
 }
 
 void RobotState::set_slip_flag(int slip_flag) { slip_flag_ = slip_flag; }
-- 
2.43.0


From ebab3ce3631ba384b77c5ed65ed96dbff3d7179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 22/39] fix: bias covariance accessors addressed contact points
 when there were any

---
 src/state/robot_state.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index e823a69..2189ed7 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -120,10 +120,10 @@ const Eigen::Matrix3d RobotState::get_position_covariance() const {
   return P_.block<3, 3>(6, 6);
 }
 const Eigen::Matrix3d RobotState::get_gyroscope_bias_covariance() const {
-  return P_.block<3, 3>(9, 9);
+  return P_.block<3, 3>(3 * this->dimX() - 6, 3 * this->dimX() - 6);
 }
 const Eigen::Matrix3d RobotState::get_accelerometer_bias_covariance() const {
-  return P_.block<3, 3>(12, 12);
+  return P_.block<3, 3>(3 * this->dimX() - 3, 3 * this->dimX() - 3);
 }
 
 const double RobotState::get_time() const { return t_; }
@@ -314,10 +314,10 @@ void RobotState::set_position_covariance(const Eigen::Matrix3d& cov) {
   P_.block<3, 3>(6, 6) = cov;
 }
 void RobotState::set_gyroscope_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(9, 9) = cov;
+  P_.block<3, 3>(3 * this->dimX() - 6, 3 * this->dimX() - 6) = cov;
 }
 void RobotState::set_accelerometer_bias_covariance(const Eigen::Matrix3d& cov) {
-  P_.block<3, 3>(12, 12) = cov;
+  P_.block<3, 3>(3 * this->dimX() - 3, 3 * this->dimX() - 3) = cov;
 }
 void RobotState::set_time(const double t) { t_ = t; }
 
-- 
2.43.0


From 65c57f4207dcd03cf2ab5f19249db1c551ea52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 23/39] fix: augmented bias accessors ignored or misused their
 index

---
 src/state/robot_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index 2189ed7..c9e86a1 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -293,7 +293,7 @@ void RobotState::add_aug_bias(const Eigen::Vector3d& baug) {
 
 
 void RobotState::del_aug_bias(int matrix_idx) {
-  int start = matrix_idx - 5 + 6;
+  int start = 6 + 3 * (matrix_idx - 5);
   Theta_.block(start, 0, Theta_.rows() - start - 3, 1)
       = Theta_.block(start + 3, 0, Theta_.rows() - start - 3, 1);
   Theta_.conservativeResize(Theta_.rows() - 3);
@@ -301,7 +301,7 @@ void RobotState::del_aug_bias(int matrix_idx) {
 
 
 const Eigen::Vector3d RobotState::get_aug_bias(int matrix_idx) {
-  return Theta_.block<3, 1>(Theta_.rows() - 3, 0);
+  return Theta_.block<3, 1>(6 + 3 * (matrix_idx - 5), 0);
 }
 
 void RobotState::set_rotation_covariance(const Eigen::Matrix3d& cov) {
-- 
2.43.0


From c50f80410a2cb0436edabe4a0e787353ed7955ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 24/39] fix: a reset kept the samples of an unfinished bias
 initialisation

---
 src/filter/inekf/propagation/imu_propagation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 1585ec1..0635df4 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -550,5 +550,9 @@ void ImuPropagation::clear() {
   }
   sensor_data_buffer_mutex_ptr_.get()->unlock();
   prev_imu_measurement_ = nullptr;
+  // An incomplete set of static samples belongs to the run that is discarded
+  if (!bias_initialized_) {
+    bias_init_vec_.clear();
+  }
 }
 }    // namespace filter::inekf
\ No newline at end of file
-- 
2.43.0


From 58b6289d8ff0bfa02cb5136dc26b282d18448f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 25/39] fix: removing an augmented state crashed when an
 untracked one follows it

---
 src/state/robot_state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state/robot_state.cpp b/src/state/robot_state.cpp
index c9e86a1..84bd2ee 100644
--- a/src/state/robot_state.cpp
+++ b/src/state/robot_state.cpp
@@ -176,7 +176,10 @@ void RobotState::del_aug_state(int matrix_idx) {
   int dimX = this->dimX();
   for (int i = matrix_idx; i < dimX - 1; i++) {
     column_id_to_corr_map_[i] = column_id_to_corr_map_[i + 1];
-    *(column_id_to_corr_map_[i]) -= 1;
+    // Columns that no correction tracks have no column number to update
+    if (column_id_to_corr_map_[i]) {
+      *(column_id_to_corr_map_[i]) -= 1;
+    }
   }
   column_id_to_corr_map_.pop_back();
   RemoveRowAndColumn(X_, matrix_idx, 1);
-- 
2.43.0


From d5d656208cc6755fa91d0e4bcfe4dc5370cfe765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 26/39] fix: group inverse dropped the augmented vectors

---
 src/math/se_k_3.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/math/se_k_3.cpp b/src/math/se_k_3.cpp
index 891492c..20ac26a 100644
--- a/src/math/se_k_3.cpp
+++ b/src/math/se_k_3.cpp
@@ -63,9 +63,12 @@ SEK3 SEK3::operator*(const SEK3& X) {
 // methods
 SEK3 SEK3::inverse() {
   SEK3 Y;
-  Y.set_R(this->get_R().transpose());
-  Y.set_p(-this->get_R().transpose() * this->get_p());
-  Y.set_v(-this->get_R().transpose() * this->get_v());
+  int dim = this->get_dim();
+  Eigen::Matrix3d Rt = this->get_R().transpose();
+  Eigen::MatrixXd X_inv = Eigen::MatrixXd::Identity(dim, dim);
+  X_inv.block(0, 0, 3, 3) = Rt;
+  X_inv.block(0, 3, 3, dim - 3) = -Rt * X_.block(0, 3, 3, dim - 3);
+  Y.set_X(X_inv);
   Y.set_K(this->get_K());
   return Y;
 }
-- 
2.43.0


From b4d84c52f0adee9c228bb46218a871b61bd8ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 27/39] fix: default-constructed leg kinematics had no joint
 velocities

---
 src/kinematics/mini_cheetah_kinematics.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinematics/mini_cheetah_kinematics.cpp b/src/kinematics/mini_cheetah_kinematics.cpp
index 85b9fca..84962bf 100644
--- a/src/kinematics/mini_cheetah_kinematics.cpp
+++ b/src/kinematics/mini_cheetah_kinematics.cpp
@@ -26,6 +26,7 @@ MiniCheetahKinematics::MiniCheetahKinematics() {
   jacobians_.setConstant(3, NLEG * NAPL, 0);
   contacts_.setConstant(NLEG, 1, 0);
   encoders_.setConstant(NLEG * NAPL, 1, 0);
+  d_encoders_.setConstant(NLEG * NAPL, 1, 0);
 }
 
 MiniCheetahKinematics::MiniCheetahKinematics(
-- 
2.43.0


From 78171389bb6058d22c9c6386da4d86ed5ef36d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 28/39] fix: leg kinematics built from joint data did not carry
 its type

---
 src/measurement/legged_kinematics.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/measurement/legged_kinematics.cpp b/src/measurement/legged_kinematics.cpp
index 9c78471..037a6a6 100644
--- a/src/measurement/legged_kinematics.cpp
+++ b/src/measurement/legged_kinematics.cpp
@@ -21,7 +21,10 @@ LeggedKinematicsMeasurement::LeggedKinematicsMeasurement(
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& encoders,
     const Eigen::Matrix<double, Eigen::Dynamic, 1>& d_encoders,
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts)
-    : encoders_(encoders), d_encoders_(d_encoders), contacts_(contacts) {}
+    : Measurement(LEGGED_KINEMATICS),
+      encoders_(encoders),
+      d_encoders_(d_encoders),
+      contacts_(contacts) {}
 
 void LeggedKinematicsMeasurement::set_contact(
     const Eigen::Matrix<bool, Eigen::Dynamic, 1>& contacts) {
-- 
2.43.0


From 6678d06a9f796256264d7dccc805d945e86f4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 29/39] fix: an orientation with undefined entries passed as a
 unit quaternion

---
 include/drift/measurement/impl/imu_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/drift/measurement/impl/imu_impl.cpp b/include/drift/measurement/impl/imu_impl.cpp
index 9aff3b7..e733454 100644
--- a/include/drift/measurement/impl/imu_impl.cpp
+++ b/include/drift/measurement/impl/imu_impl.cpp
@@ -69,7 +69,8 @@ template<typename T>
 void ImuMeasurement<T>::validate_quat(T w, T x, T y, T z) {
   double tol = 1e-5;
   T q_mag = w * w + x * x + y * y + z * z;
-  if (std::abs(q_mag - 1) >= tol) {
+  // Written such that an undefined norm is rejected as well
+  if (!(std::abs(q_mag - 1) < tol)) {
     throw std::invalid_argument("Quaternion arguments must be normalized");
   }
 }
-- 
2.43.0


From e512dfd031c005202ceae6a33afe2e807961b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 30/39] fix: sequence number of a new measurement was undefined

---
 src/measurement/measurement.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/measurement/measurement.cpp b/src/measurement/measurement.cpp
index 3c5038f..ca6d5c0 100644
--- a/src/measurement/measurement.cpp
+++ b/src/measurement/measurement.cpp
@@ -17,9 +17,13 @@ using namespace std;
 
 namespace measurement {
 
-Measurement::Measurement() : type_(EMPTY) { header.stamp = 0; }
+Measurement::Measurement() : type_(EMPTY) {
+  header.seq = 0;
+  header.stamp = 0;
+}
 
 Measurement::Measurement(MeasurementType type) : type_(type) {
+  header.seq = 0;
   header.stamp = 0;
 }
 void Measurement::set_time(double t) { header.stamp = t; }
-- 
2.43.0


From 24c9ba91599ad6527f8849145f9f7e3310a4151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 31/39] fix: wheel and leg messages with too few entries were
 read out of bounds

---
 ROS/drift/src/communication/ros_subscriber.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 180d861..467b5ce 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -408,6 +408,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  // Four wheels are needed
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -445,6 +450,11 @@ void ROSSubscriber::DifferentialEncoder2VelocityCallback(
           + encoder_msg->header.stamp.nsec / 1000000000.0,
       encoder_msg->header.frame_id);
 
+  // Four wheels are needed
+  if (encoder_msg->velocity.size() < 4) {
+    return;
+  }
+
   double vr = (encoder_msg->velocity[1] + encoder_msg->velocity[3]) / 2.0
               * wheel_radius;
   double vl = (encoder_msg->velocity[0] + encoder_msg->velocity[2]) / 2.0
@@ -557,6 +567,12 @@ void ROSSubscriber::MiniCheetahKinCallBack(
           + contact_msg->header.stamp.nsec / 1000000000.0,
       contact_msg->header.frame_id);
 
+  // Four legs with three joints each are needed
+  if (contact_msg->contacts.size() < 4 || encoder_msg->position.size() < 12
+      || encoder_msg->velocity.size() < 12) {
+    return;
+  }
+
   Eigen::Matrix<bool, 4, 1> ct_msg;
   ct_msg << contact_msg->contacts[0].indicator,
       contact_msg->contacts[1].indicator, contact_msg->contacts[2].indicator,
-- 
2.43.0


From 9bd21366923b5704ec02635debe8a7d569c512e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 32/39] fix: the pose message carried the rotation and velocity
 covariance

---
 ROS/drift/src/communication/ros_publisher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 27c6530..9dedbc8 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -133,7 +133,9 @@ void ROSPublisher::PosePublish() {
   // about Z axis)
   for (int i = 0; i < 6; i++) {
     for (int j = 0; j < 6; j++) {
-      pose_msg.pose.covariance[i * 6 + j] = cov(i, j);
+      // The state's error is ordered as rotation, velocity, position
+      pose_msg.pose.covariance[i * 6 + j]
+          = cov(i < 3 ? i + 6 : i - 3, j < 3 ? j + 6 : j - 3);
     }
   }
 
-- 
2.43.0


From c1c63ae1190b29cbc9685a56ffced8b23d76aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 33/39] fix: the pose publisher looked at the state queue
 without its lock

---
 ROS/drift/src/communication/ros_publisher.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ROS/drift/src/communication/ros_publisher.cpp b/ROS/drift/src/communication/ros_publisher.cpp
index 9dedbc8..065af5f 100644
--- a/ROS/drift/src/communication/ros_publisher.cpp
+++ b/ROS/drift/src/communication/ros_publisher.cpp
@@ -94,12 +94,12 @@ void ROSPublisher::StartPublishingThread() {
 
 // Publishes pose
 void ROSPublisher::PosePublish() {
+  // Get the first pose
+  robot_state_queue_mutex_.get()->lock();
   if (robot_state_queue_ptr_->empty()) {
+    robot_state_queue_mutex_.get()->unlock();
     return;
   }
-
-  // Get the first pose
-  robot_state_queue_mutex_.get()->lock();
   const std::shared_ptr<RobotState> state_ptr = robot_state_queue_ptr_->front();
   robot_state_queue_ptr_->pop();
   robot_state_queue_mutex_.get()->unlock();
-- 
2.43.0


From f7bc6df3bed024b434ba2baedc9cba6b8aff6b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 34/39] fix: several odometry sources shared the mounting of
 the last one

---
 ROS/drift/include/communication/ros_subscriber.h |  4 +++-
 ROS/drift/src/communication/ros_subscriber.cpp   | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ROS/drift/include/communication/ros_subscriber.h b/ROS/drift/include/communication/ros_subscriber.h
index a55a18a..3aed083 100644
--- a/ROS/drift/include/communication/ros_subscriber.h
+++ b/ROS/drift/include/communication/ros_subscriber.h
@@ -420,7 +420,9 @@ class ROSSubscriber {
   std::vector<std::shared_ptr<std::mutex>> mutex_list_;    // List of mutexes
   std::unordered_map<int, OdomMeasurementPtr>
       prev_odom_map_;                   // odom_src_id -> prev_odom_measurement
-  Eigen::Matrix4d odom_src_to_body_;    // Camera to body transformation matrix
+  std::vector<Eigen::Matrix4d>
+      odom_src_to_body_;    // Camera to body transformation matrix of each
+                            // odometry source
 
 
   bool thread_started_;    // Flag of the thread started, true for started,
diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 467b5ce..63f138f 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -249,14 +249,15 @@ VelocityQueuePair ROSSubscriber::AddOdom2VelocityCallback(
   mutex_list_.emplace_back(new std::mutex);
 
   // Calculate the transformation from odometry source to body
-  odom_src_to_body_ = Eigen::Matrix4d::Identity();
+  Eigen::Matrix4d odom_src_to_body = Eigen::Matrix4d::Identity();
   Eigen::Quaternion<double> orientation_quat(
       rotation_odomsrc2body[0], rotation_odomsrc2body[1],
       rotation_odomsrc2body[2], rotation_odomsrc2body[3]);
-  odom_src_to_body_.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
-  odom_src_to_body_.block<3, 1>(0, 3) = Eigen::Vector3d(
+  odom_src_to_body.block<3, 3>(0, 0) = orientation_quat.toRotationMatrix();
+  odom_src_to_body.block<3, 1>(0, 3) = Eigen::Vector3d(
       {translation_odomsrc2body[0], translation_odomsrc2body[1],
        translation_odomsrc2body[2]});
+  odom_src_to_body_.push_back(odom_src_to_body);
 
   // Create a new pair of Odometry queue and its mutex in case we have multiple
   // odometry sources
@@ -675,9 +676,10 @@ void ROSSubscriber::Odom2VelocityCallback(
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
 
-  Eigen::Matrix4d transformation = odom_src_to_body_.inverse()
+  const Eigen::Matrix4d& odom_src_to_body = odom_src_to_body_[odom_src_id];
+  Eigen::Matrix4d transformation = odom_src_to_body.inverse()
                                    * prev_transformation.inverse()
-                                   * curr_transformation * odom_src_to_body_;
+                                   * curr_transformation * odom_src_to_body;
   Eigen::Matrix4d twist_se3 = transformation.log();
 
   std::shared_ptr<VelocityMeasurement<double>> vel_measurement(
-- 
2.43.0


From 65a6925bf57cbe604521861e6b83e3c51ea29bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 35/39] fix: a repeated odometry message gave an infinite or
 undefined velocity

---
 ROS/drift/src/communication/ros_subscriber.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ROS/drift/src/communication/ros_subscriber.cpp b/ROS/drift/src/communication/ros_subscriber.cpp
index 63f138f..2f0b0fe 100644
--- a/ROS/drift/src/communication/ros_subscriber.cpp
+++ b/ROS/drift/src/communication/ros_subscriber.cpp
@@ -672,6 +672,10 @@ void ROSSubscriber::Odom2VelocityCallback(
   double curr_time = odom_ptr->get_time();
 
   double time_diff = curr_time - prev_time;
+  // There is no velocity between two messages of the same time
+  if (time_diff == 0) {
+    return;
+  }
 
   // Set current odometry as previous odometry
   prev_odom_map_[odom_src_id] = odom_ptr;
-- 
2.43.0


From afa72232c9277b86ddcddbb5b78b6ff5dd362cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 36/39] fix: wheel odometry started over when the first time
 stamp was 0

---
 baselines/include/wheel_odometry/wheel_odometry.h | 1 +
 baselines/src/wheel_odometry/wheel_odometry.cpp   | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/baselines/include/wheel_odometry/wheel_odometry.h b/baselines/include/wheel_odometry/wheel_odometry.h
index c65fe46..b89d545 100644
--- a/baselines/include/wheel_odometry/wheel_odometry.h
+++ b/baselines/include/wheel_odometry/wheel_odometry.h
@@ -50,6 +50,7 @@ class WheelOdometry {
 
   RobotState state_;
 
+  bool initialized_ = false;
   double prev_t_ = 0.0;
   double last_pub_t_ = 0.0;
 
diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index a6b0bfa..ecd7364 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -85,7 +85,8 @@ void WheelOdometry::RunOnce() {
     // Get the time stamp of the measurement
     double t = vel_measurement->get_time();
 
-    if (prev_t_ == 0) {
+    if (!initialized_) {
+      initialized_ = true;
       prev_t_ = t;
       state_.set_time(t);
       return;
-- 
2.43.0


From bb6b2a0c58a766878c4577d90cc6362979dfdf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 37/39] fix: a log file name without extension was cut at a dot
 in its directory

---
 baselines/src/wheel_odometry/wheel_odometry.cpp | 5 +++--
 src/estimator/inekf_estimator.cpp               | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/baselines/src/wheel_odometry/wheel_odometry.cpp b/baselines/src/wheel_odometry/wheel_odometry.cpp
index ecd7364..b23c1d7 100644
--- a/baselines/src/wheel_odometry/wheel_odometry.cpp
+++ b/baselines/src/wheel_odometry/wheel_odometry.cpp
@@ -39,8 +39,9 @@ WheelOdometry::WheelOdometry(VelocityQueuePtr vel_queue,
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // A dot in the name of a directory is not an extension.
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
     // Define logger settings
diff --git a/src/estimator/inekf_estimator.cpp b/src/estimator/inekf_estimator.cpp
index 00e52f7..07b8ded 100644
--- a/src/estimator/inekf_estimator.cpp
+++ b/src/estimator/inekf_estimator.cpp
@@ -49,13 +49,14 @@ InekfEstimator::InekfEstimator(ErrorType error_type, std::string config_file)
     // Erase the ".txt" or ".csv" from the file name.
     // This is helpful to make new file names when InekfEstimator::clear() is
     // called
-    std::string::size_type pos = pose_log_file_.find_last_of(".");
-    if (pos != std::string::npos)
+    // A dot in the name of a directory is not an extension.
+    std::string::size_type pos = pose_log_file_.find_last_of("./");
+    if (pos != std::string::npos && pose_log_file_[pos] == '.')
       pose_log_file_.erase(pos, pose_log_file_.length());
 
 
-    std::string::size_type v_pos = vel_log_file_.find_last_of(".");
-    if (v_pos != std::string::npos)
+    std::string::size_type v_pos = vel_log_file_.find_last_of("./");
+    if (v_pos != std::string::npos && vel_log_file_[v_pos] == '.')
       vel_log_file_.erase(v_pos, vel_log_file_.length());
 
     // Define logger settings
-- 
2.43.0


From 9c771bbc0f66958ec4fc30aa789dcd169ae6bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 38/39] fix: contact_std of the configuration files was ignored

---
 src/filter/inekf/correction/legged_kinematics_correction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter/inekf/correction/legged_kinematics_correction.cpp b/src/filter/inekf/correction/legged_kinematics_correction.cpp
index 928eeed..6b20803 100644
--- a/src/filter/inekf/correction/legged_kinematics_correction.cpp
+++ b/src/filter/inekf/correction/legged_kinematics_correction.cpp
@@ -26,8 +26,11 @@ LeggedKinematicsCorrection::LeggedKinematicsCorrection(
             ? config_["noises"]["kinematics_additive_std"].as<double>()
             : 0.05;
 
+  // The entry is called contact_std in the configuration files
   double contact_noise_std
-      = config_["noises"]["contact_noise_std"]
+      = config_["noises"]["contact_std"]
+            ? config_["noises"]["contact_std"].as<double>()
+        : config_["noises"]["contact_noise_std"]
             ? config_["noises"]["contact_noise_std"].as<double>()
             : 0.1;
   contact_noise_cov_ = contact_noise_std * contact_noise_std
-- 
2.43.0


From 5ec63cadf51d00dea102732e10e5d52fb4c5fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:16 +0000
Subject: [PATCH 39/39] fix: bias blocks of the IMU state transition lost
 precision for rotation angles between 1e-4 and 5e-3

---
 src/filter/inekf/propagation/imu_propagation.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/filter/inekf/propagation/imu_propagation.cpp b/src/filter/inekf/propagation/imu_propagation.cpp
index 0635df4..877f14b 100644
--- a/src/filter/inekf/propagation/imu_propagation.cpp
+++ b/src/filter/inekf/propagation/imu_propagation.cpp
@@ -311,11 +311,14 @@ Eigen::MatrixXd ImuPropagation::StateTransitionMatrix(const Eigen::Vector3d& w,
 
   // The closed forms above cancel catastrophically for small angles, use the
   // Taylor series instead
-  const double tol = 1e-4;
+  const double tol = 5e-3;
   if (std::fabs(thetadt) < tol) {
-    Phi25L = (1.0 / 2.0) * ax * dt2 - (1.0 / 6.0) * (wx * ax + ax * wx) * dt3;
+    Phi25L = (1.0 / 2.0) * ax * dt2 - (1.0 / 6.0) * (wx * ax + ax * wx) * dt3
+             + (1.0 / 24.0) * (wx2 * ax + wx * ax * wx + ax * wx2) * dt3 * dt;
     Phi35L = (1.0 / 6.0) * ax * dt3
-             - (1.0 / 24.0) * (2.0 * wx * ax + ax * wx) * dt3 * dt;
+             - (1.0 / 24.0) * (2.0 * wx * ax + ax * wx) * dt3 * dt
+             + (1.0 / 120.0) * (3.0 * wx2 * ax + 2.0 * wx * ax * wx + ax * wx2)
+                   * dt3 * dt2;
   }
 
   // Fill out analytical state transition matrices
-- 
2.43.0


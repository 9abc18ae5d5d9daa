prop="C01"
needs="an inertial sensor mounted off the body centre (lever arm) together with a non-zero gyroscope bias estimate"
breaks="the centripetal compensation uses the raw rate instead of the bias-corrected one, so velocity and position drift"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""  Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()
                      - state""","""  Eigen::Vector3d w_meas = R_imu2body_ * imu_measurement->get_angular_velocity();
  Eigen::Vector3d a_compensate = w_meas.cross(w_meas.cross(t_imu2body_));
  Eigen::Vector3d a = R_imu2body_ * imu_measurement->get_lin_acc()
                      - state""")]

prop="C14"
needs="the gyro filter with IMU and encoder corrections: an encoder correction followed by further corrections"
breaks="the covariance update of an encoder correction uses the IMU's observation matrix, so all later gains are wrong"
edits=[("src/imu_filter/imu_ang_vel_ekf.cpp","""      = (Eigen::MatrixXd::Identity(6, 6) - K * H_enc_) * ang_vel_and_bias_P_;""","""      = (Eigen::MatrixXd::Identity(6, 6) - K * H_imu_) * ang_vel_and_bias_P_;""")]

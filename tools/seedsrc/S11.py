prop="C11"
needs="an inertial sensor both rotated and mounted off the body centre that turns during static bias initialisation"
breaks="the centripetal acceleration is computed from the rate in the sensor frame, so the accelerometer bias is wrong"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""    w = R_imu2body_ * w;
    Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
""","""    Eigen::Vector3d a_compensate = w.cross(w.cross(t_imu2body_));
    w = R_imu2body_ * w;
""")]

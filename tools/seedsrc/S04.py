prop="C14"
needs="inertial and encoder rate samples waiting together, the encoder sample strictly earlier"
breaks="the later inertial sample is fused first, so samples are used out of time order"
edits=[("src/imu_filter/imu_ang_vel_ekf.cpp","""    if (imu_measurement->get_time() <= ang_vel_measurement->get_time()) {
      ang_vel_measurement = nullptr;""","""    if (imu_measurement->get_time() - t_thres_
        <= ang_vel_measurement->get_time()) {
      ang_vel_measurement = nullptr;""")]

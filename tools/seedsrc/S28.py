prop="C10"
needs="a reset of an estimator with gyro filter while filtered samples are waiting"
breaks="filtered inertial samples from before the reset survive it"
edits=[("src/imu_filter/imu_ang_vel_ekf.cpp","""  filtered_imu_data_buffer_mutex_ptr_.get()->lock();
  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
""","""  filtered_imu_data_buffer_mutex_ptr_.get()->lock();
  if (filtered_imu_data_buffer_ptr_->size() > 1) {
    filtered_imu_data_buffer_ptr_->pop();
  }
""")]

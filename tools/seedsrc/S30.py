prop="C15"
needs="a reset of the gyro filter while its thread or a reader uses the filtered queue"
breaks="the reset empties the filtered queue without its lock"
edits=[("src/imu_filter/imu_ang_vel_ekf.cpp","""  filtered_imu_data_buffer_mutex_ptr_.get()->lock();
  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
  filtered_imu_data_buffer_mutex_ptr_.get()->unlock();
""","""  while (!filtered_imu_data_buffer_ptr_->empty()) {
    filtered_imu_data_buffer_ptr_->pop();
  }
""")]

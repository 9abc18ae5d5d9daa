prop="C13"
needs="another thread taking the last inertial sample between the look at the queue and the lock (a reset from another thread)"
breaks="whether there is a sample is decided before the lock is taken; the sample is then taken without looking again"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""  sensor_data_buffer_mutex_ptr_.get()->lock();
  if (sensor_data_buffer_ptr_->empty()) {
    sensor_data_buffer_mutex_ptr_.get()->unlock();
    return false;
  }

  prev_imu_measurement_ =""","""  if (sensor_data_buffer_ptr_->empty()) {
    return false;
  }

  sensor_data_buffer_mutex_ptr_.get()->lock();
  prev_imu_measurement_ =""")]

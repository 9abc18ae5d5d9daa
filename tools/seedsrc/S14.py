prop="C15"
needs="the gyro filter with encoder-only correction; a reset (or another consumer) that empties the encoder queue between looking at a sample and removing it"
breaks="the sample is looked at under one lock and removed under another without checking again: removing from an empty queue"
edits=[("src/imu_filter/imu_ang_vel_ekf.cpp","""      = ang_vel_data_buffer_ptr_->front();
  ang_vel_data_buffer_ptr_->pop();
  ang_vel_data_buffer_mutex_ptr_.get()->unlock();

""","""      = ang_vel_data_buffer_ptr_->front();
  ang_vel_data_buffer_mutex_ptr_.get()->unlock();

  ang_vel_data_buffer_mutex_ptr_.get()->lock();
  ang_vel_data_buffer_ptr_->pop();
  ang_vel_data_buffer_mutex_ptr_.get()->unlock();
""")]

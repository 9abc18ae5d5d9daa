prop="C10"
needs="a reset while legs are in contact, followed by a restart in which one of those legs is in contact"
breaks="the tracked contacts survive the reset"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""  sensor_data_buffer_mutex_ptr_.get()->unlock();

  aug_id_to_column_id_ptr_.clear();
""","""  sensor_data_buffer_mutex_ptr_.get()->unlock();
""")]

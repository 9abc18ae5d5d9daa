prop="C06"
needs="a velocity sample gone stale followed by another one whose age differs between the last prediction and the state's own time stamp (several sensors)"
breaks="after skipping a stale sample the age of the next one is measured against the state's time stamp instead of the last prediction, so samples are used or dropped wrongly"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""      sensor_data_buffer_mutex_ptr_->unlock();

      t_diff = kinematics_measurement->get_time() - state.get_propagate_time();""","""      sensor_data_buffer_mutex_ptr_->unlock();

      t_diff = kinematics_measurement->get_time() - state.get_time();""")]
needs=needs.replace("velocity","leg")

prop="C09"
needs="at least three leg samples waiting when the filter initialises"
breaks="initialisation takes a sample that is not the newest and leaves older ones in the queue"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""  while (sensor_data_buffer_ptr_->size() > 1) {""","""  if (sensor_data_buffer_ptr_->size() > 1) {""")]

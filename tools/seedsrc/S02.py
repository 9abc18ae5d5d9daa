prop="C04"
needs="two velocity measurements pending inside one inertial interval: the first correction moves the state's time back before the second one is looked at"
breaks="the second velocity measurement, although due, is held back and used only after later inertial samples"
edits=[("src/filter/inekf/correction/velocity_correction.cpp","""  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  double t_diff = measured_velocity->get_time() - state.get_propagate_time();
""","""  VelocityMeasurementPtr measured_velocity = sensor_data_buffer_ptr_->front();
  double t_diff = measured_velocity->get_time() - state.get_time();
""")]

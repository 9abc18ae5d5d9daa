prop="C13"
needs="a consumer that holds or takes the lock of the state queue while the filter publishes its initial state"
breaks="the initial state is pushed onto the shared queue without its lock"
edits=[("src/estimator/inekf_estimator.cpp","""  // Push the initial state to the queue
  robot_state_queue_mutex_ptr_.get()->lock();
  robot_state_queue_ptr_.get()->push(std::make_shared<RobotState>(state_));
  robot_state_queue_mutex_ptr_.get()->unlock();
""","""  // Push the initial state to the queue
  auto initial_state = std::make_shared<RobotState>(state_);
  robot_state_queue_mutex_ptr_.get()->lock();
  robot_state_queue_mutex_ptr_.get()->unlock();
  robot_state_queue_ptr_.get()->push(initial_state);
""")]

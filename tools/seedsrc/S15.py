prop="C16"
needs="states at irregular times: one that is logged late in its period, followed by one less than a period later"
breaks="the time of the last logged state is rounded down to the logging grid, so states closer than one period are logged"
edits=[("src/estimator/inekf_estimator.cpp","""      last_pub_t_ = state_log_ptr->get_time();""","""      last_pub_t_ = std::floor(state_log_ptr->get_time() * pose_log_rate_)
                    / pose_log_rate_;""")]

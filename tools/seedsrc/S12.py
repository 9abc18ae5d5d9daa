prop="C12"
needs="leg sensors, a robot that moves at start, and an initial orientation other than the identity taken from the inertial sensor"
breaks="the initial velocity from the legs stays in the body frame instead of being rotated into the world"
edits=[("src/filter/inekf/correction/legged_kinematics_correction.cpp","""  state.set_velocity(state.get_rotation()
                     * kinematics_measurement->get_init_velocity(body_w));""","""  state.set_velocity(kinematics_measurement->get_init_velocity(body_w));""")]

prop="C23"
needs="driving and turning in the same interval"
breaks="the displacement uses the orientation at the end of the interval for the part after the first"
edits=[("baselines/src/wheel_odometry/wheel_odometry.cpp","""  X.block<3, 1>(0, 4) = p + R * v_mea * dt;""","""  X.block<3, 1>(0, 4) = p + X.block<3, 3>(0, 0) * v_mea * dt;""")]
breaks="the displacement uses the orientation at the end of the interval instead of the one at its start"

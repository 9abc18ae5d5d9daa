prop="C02"
needs="bias estimation on and at least one tracked contact during an inertial prediction"
breaks="the accelerometer bias noise goes to a fixed position that belongs to a contact point or the gyroscope bias once contacts are tracked"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""    Qc.block<3, 3>(dimP - dimTheta + 3, dimP - dimTheta + 3) = accel_bias_cov_;""","""    Qc.block<3, 3>(12, 12) = accel_bias_cov_;""")]

prop="C02"
needs="right-invariant error, bias estimation on, and at least one tracked contact point when an inertial sample is consumed"
breaks="the newest contact point's error is no longer coupled to the gyroscope bias in the transition, so its covariance is wrong after a prediction"
edits=[("src/filter/inekf/propagation/imu_propagation.cpp","""      for (int i = 5; i < dimX; ++i) {
        Phi.block<3, 3>((i - 2) * 3, dimP - dimTheta)
""","""      for (int i = 5; i < dimX - 1; ++i) {
        Phi.block<3, 3>((i - 2) * 3, dimP - dimTheta)
""")]

prop="C03"
needs="a yaw-rate bias that is not zero (prior or static initialisation) when a correction arrives"
breaks="every correction resets the yaw-rate bias to zero instead of leaving it alone"
edits=[("src/filter/inekf/inekf.cpp","""  dTheta(2) = 0;
  Eigen::VectorXd Theta_new = Theta + dTheta;
""","""  Eigen::VectorXd Theta_new = Theta + dTheta;
  Theta_new(2) = 0;
""")]

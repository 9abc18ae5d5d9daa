#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  accelerometer_bias_std: 3\nsettings:\n  static_bias_initialization: false\n  enable_imu_bias_update: true\n");
  double grow[2];
  for (int k = 0; k < 2; k++) {
    ImuBuf b;
    ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
    RobotState s;
    b.q->push(imu(1.0, 0, 0, 0));
    p.set_initial_state(s);
    if (k) s.add_aug_state(Eigen::Vector3d(1, 0, 0), Eigen::MatrixXd::Identity(18, 18), 0.01 * Eigen::Matrix3d::Identity(), std::make_shared<int>(5));
    else s.set_P(Eigen::MatrixXd::Identity(15, 15));
    for (double t : {1.1, 1.2}) b.q->push(imu(t, 0, 0, 0));
    p.Propagate(s);
    p.Propagate(s);
    int n = s.dimP();
    grow[k] = s.get_P()(n - 1, n - 1) - 1;
  }
  expect(std::fabs(grow[0] - 0.9) < 1e-6, "bias uncertainty grows by the configured noise");
  expect(std::fabs(grow[1] - grow[0]) < 1e-9, "with a contact just as without");
  puts("DEMO ok");
}

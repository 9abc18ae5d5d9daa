#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  gyroscope_std: 0.01\nsettings:\n  enable_imu_bias_update: true\n  static_bias_initialization: false\npriors:\n  x: 0\n");
  ImuBuf b;
  ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
  RobotState s;
  auto idx = std::make_shared<int>(5);
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(18, 18);
  s.add_aug_state(Eigen::Vector3d(1, 2, 3), P, Eigen::Matrix3d::Identity(), idx);
  s.set_enable_imu_bias_update(true);
  b.q->push(imu(0.0, 0, 0, 0));
  p.Propagate(s);
  b.q->push(imu(0.1, 0, 0, 0));
  p.Propagate(s);  // consumes the sample received at 0.0
  b.q->push(imu(0.2, 0, 0, 0));
  p.Propagate(s);  // integrates over 0.1 s
  Eigen::Matrix3d C = s.get_P().block<3, 3>(9, 12);
  Eigen::Vector3d d(1, 2, 3);
  Eigen::Matrix3d dx;
  dx << 0, -d(2), d(1), d(2), 0, -d(0), -d(1), d(0), 0;
  expect((C + dx * 0.1).norm() < 0.02, "the contact point is correlated with the gyroscope bias by -[d]x dt");
  puts("DEMO ok");
}

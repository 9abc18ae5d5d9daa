#include "demo.hpp"
using namespace filter::inekf;
int main() {
  RobotState s;
  s.set_enable_imu_bias_update(true);
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(15, 15);
  P(0, 11) = P(11, 0) = 0.2;
  P(3, 11) = P(11, 3) = 0.1;
  s.set_P(P);
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(3, 15), N = Eigen::MatrixXd::Identity(3, 3) * 0.1;
  H.block<3, 3>(0, 3).setIdentity();
  CorrectRightInvariant(Eigen::VectorXd::Ones(3), H, N, s, ErrorType::RightInvariant);
  expect((s.get_P() - s.get_P().transpose()).norm() < 1e-9, "the covariance is symmetric");
  puts("DEMO ok");
}

#include "demo.hpp"
#include "drift/math/lie_group.h"
using namespace filter::inekf;
int main() {
  Eigen::MatrixXd P = Eigen::MatrixXd::Identity(15, 15) * 0.5;
  for (int i = 0; i < 9; i++)
    for (int j = 0; j < 9; j++)
      if (i != j) P(i, j) = 0.05 / (1 + abs(i - j));
  RobotState r, l;
  r.set_P(P);
  l.set_P(P);  // at the identity both errors agree
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(3, 15), N = Eigen::MatrixXd::Identity(3, 3) * 0.1;
  H.block<3, 3>(0, 3).setIdentity();
  Eigen::VectorXd Z(3);
  Z << 2, -1, 0.5;
  CorrectRightInvariant(Z, H, N, r, ErrorType::RightInvariant);
  CorrectRightInvariant(Z, H, N, l, ErrorType::LeftInvariant);
  expect((r.get_X() - l.get_X()).norm() < 1e-9, "same mean");
  Eigen::MatrixXd A = Eigen::MatrixXd::Identity(15, 15);
  A.block(0, 0, 9, 9) = math::lie_group::Adjoint_SEK3(l.get_X());
  expect((A * l.get_P() * A.transpose() - r.get_P()).norm() < 1e-6, "the two error conventions describe one covariance");
  puts("DEMO ok");
}

#include "demo.hpp"
#include "drift/math/lie_group.h"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\nsettings:\n  correction_time_threshold: 0.3\n");
  RobotState s[2];
  for (int k = 0; k < 2; k++) {
    LegBuf b;
    LeggedKinematicsCorrection c(b.q, b.m, k ? ErrorType::LeftInvariant : ErrorType::RightInvariant, "leg.yaml");
    s[k].set_P(Eigen::MatrixXd::Identity(15, 15));
    s[k].set_propagate_time(1.0);
    b.q->push(legs(1.0, 1, 0, 0, 0));
    c.Correct(s[k]);
    expect(s[k].dimX() == 6, "one contact");
  }
  Eigen::MatrixXd A = Eigen::MatrixXd::Identity(18, 18);
  A.block(0, 0, 12, 12) = math::lie_group::Adjoint_SEK3(s[1].get_X());
  expect((A * s[1].get_P() * A.transpose() - s[0].get_P()).norm() < 1e-9, "the two conventions describe one covariance");
  puts("DEMO ok");
}

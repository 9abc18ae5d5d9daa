#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("vel.yaml", "noises:\n  velocity_std: 0.1\n");
  VelBuf b;
  VelocityCorrection c(b.q, b.m, ErrorType::RightInvariant, "vel.yaml");
  RobotState s;
  s.set_P(Eigen::MatrixXd::Identity(15, 15));
  s.set_gyroscope_bias(Eigen::Vector3d(0.1, 0.2, 0.3));
  s.set_propagate_time(1.1);
  b.q->push(vel(1.0, 1, 0, 0));
  expect(c.Correct(s), "used");
  expect(std::fabs(s.get_gyroscope_bias()(2) - 0.3) < 1e-12, "a velocity correction never changes the yaw-rate bias");
  puts("DEMO ok");
}

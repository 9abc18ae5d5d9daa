#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  RobotState s;
  Eigen::Matrix3d R = Eigen::Quaterniond(0.6, 0, 0.8, 0).toRotationMatrix();
  Eigen::Vector3d w(0.3, -0.2, 0.5);
  s.set_rotation(R);
  s.set_body_angular_velocity(w);
  auto m = legs(1.0, 1, 0, 0, 0);
  Eigen::Vector3d v = m->get_init_velocity(w);
  b.q->push(m);
  expect(c.initialize(s), "initialises");
  expect(v.norm() > 1e-3, "the robot moves");
  expect((s.get_velocity() - R * v).norm() < 1e-9, "the velocity is expressed in the world frame");
  puts("DEMO ok");
}

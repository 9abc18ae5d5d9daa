#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\nsettings:\n  correction_time_threshold: 0.3\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  RobotState s;
  s.set_time(1.0);
  s.set_propagate_time(1.0);
  auto m = legs(1.0, 1, 1, 1, 1);
  b.q->push(m);
  expect(c.Correct(s), "touch-down");
  Eigen::Vector3d foot3 = s.get_position() + s.get_rotation() * m->get_kin_pos(3);
  Eigen::Vector3d foot2 = s.get_position() + s.get_rotation() * m->get_kin_pos(2);
  b.q->push(legs(1.0, 0, 0, 1, 1));
  expect(c.Correct(s), "lift-off of legs 0 and 1");
  expect(s.dimX() == 7, "two contacts remain");
  expect((s.get_vector(5) - foot2).norm() < 1e-6, "leg 2's foot is kept");
  expect((s.get_vector(6) - foot3).norm() < 1e-6, "leg 3's foot is kept");
  puts("DEMO ok");
}

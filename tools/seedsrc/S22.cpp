#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\nsettings:\n  correction_time_threshold: 0.3\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  RobotState s;
  s.set_propagate_time(1.0);
  b.q->push(legs(1.0, 1, 1, 1, 1));
  c.Correct(s);
  expect(s.dimX() == 9, "four contacts");
  Eigen::Vector3d d1 = s.get_aug_state(6), d3 = s.get_aug_state(8);
  b.q->push(legs(1.0, 0, 1, 0, 1));
  c.Correct(s);
  expect(s.dimX() == 7, "two contacts left");
  expect((s.get_aug_state(5) - d1).norm() < 1e-6 && (s.get_aug_state(6) - d3).norm() < 1e-6, "the remaining contacts are the ones still touching");
  puts("DEMO ok");
}

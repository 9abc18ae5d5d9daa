#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\nsettings:\n  correction_time_threshold: 0.3\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  RobotState s;
  s.set_propagate_time(2.0);
  s.set_time(1.75);  // another sensor's sample was used last
  b.q->push(legs(1.0, 1, 0, 0, 0));
  b.q->push(legs(1.6, 0, 1, 0, 0));  // 0.4 s before the last prediction: too old
  expect(!c.Correct(s), "both samples are too old");
  expect(s.dimX() == 5, "no contact was added");
  puts("DEMO ok");
}

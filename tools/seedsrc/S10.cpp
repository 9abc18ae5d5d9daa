#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\nsettings:\n  correction_time_threshold: 0.3\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  {
    RobotState s;
    s.set_propagate_time(1.0);
    b.q->push(legs(1.0, 0, 1, 0, 0));
    c.Correct(s);
    expect(s.dimX() == 6, "one contact is tracked");
  }
  c.clear();
  RobotState s;
  s.set_propagate_time(2.0);
  b.q->push(legs(2.0, 0, 0, 0, 0));
  c.Correct(s);
  expect(s.dimX() == 5, "no contact after a reset and a sample without contacts");
  b.q->push(legs(2.0, 1, 0, 0, 0));
  c.Correct(s);
  expect(s.dimX() == 6, "the contact is new after the reset");
  puts("DEMO ok");
}

#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("leg.yaml", "noises:\n  encoder_std: 0.01\n");
  LegBuf b;
  LeggedKinematicsCorrection c(b.q, b.m, ErrorType::RightInvariant, "leg.yaml");
  RobotState s;
  for (int i = 1; i <= 4; i++) b.q->push(legs(i, 1, 0, 0, 0));
  expect(c.initialize(s), "initialises");
  expect(b.q->empty(), "older samples are discarded");
  expect(s.get_time() == 4, "the newest sample is used");
  puts("DEMO ok");
}

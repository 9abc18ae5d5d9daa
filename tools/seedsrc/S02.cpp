#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("vel.yaml", "noises:\n  velocity_std: 0.1\nsettings:\n  correction_time_threshold: 0.3\n");
  VelBuf b;
  VelocityCorrection c(b.q, b.m, ErrorType::LeftInvariant, "vel.yaml");
  RobotState s;
  s.set_time(1.0);
  s.set_propagate_time(1.0);
  b.q->push(vel(0.8, 1, 0, 0));
  b.q->push(vel(0.9, 1, 0, 0));
  expect(c.Correct(s), "the first measurement is used");
  expect(c.Correct(s), "the second measurement lies before the last prediction and is used in the next step");
  expect(b.q->empty(), "nothing stays queued");
  puts("DEMO ok");
}

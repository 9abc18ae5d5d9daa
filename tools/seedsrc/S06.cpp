#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: false\n  translation_imu2body: [0.5, 0, 0]\npriors:\n  gyroscope_bias: [0, 0, 1]\n");
  ImuBuf b;
  ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
  RobotState s;
  b.q->push(imu(1.0, 0, 0, 1));
  p.set_initial_state(s);
  b.q->push(imu(1.1, 0, 0, 1));  // the rate is all bias: the robot stands still
  b.q->push(imu(1.2, 0, 0, 1));
  p.Propagate(s);
  p.Propagate(s);
  expect(s.get_velocity().norm() < 1e-9, "a robot at rest whose measured rate is pure bias must not move");
  puts("DEMO ok");
}

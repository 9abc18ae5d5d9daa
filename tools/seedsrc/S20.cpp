#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  gyroscope_bias_std: 0.5\nsettings:\n  static_bias_initialization: false\n");
  ImuBuf b;
  ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
  RobotState s;
  b.q->push(imu(1.0, 0, 0, 0));
  p.set_initial_state(s);
  expect(std::fabs(s.get_P()(9, 9) - 0.25) < 1e-12, "gyroscope bias covariance");
  expect(std::fabs(s.get_P()(12, 12) - 0.01) < 1e-12, "accelerometer bias covariance has its default");
  puts("DEMO ok");
}

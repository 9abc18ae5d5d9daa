#include "demo.hpp"
int main() {
  put("e.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_rate: 1\n  pose_log_file: p.txt\n  vel_log_file: v.txt\nstate:\n  x: 0\n");
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: false\n");
  ImuBuf b;
  double want = 0;
  {
    estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
    e.add_imu_propagation(b.q, b.m, "imu.yaml");
    b.q->push(imu(1000, 0, 0, 0));
    e.InitState();
    for (int i = 1; i < 3; i++) {
      b.q->push(imu(1000 + i, 0, 0, 0, 123.456789012345, 0, 9.80));
      e.RunOnce();
    }
    b.q->push(imu(1003, 0, 0, 0));
    e.RunOnce();
    want = e.get_state().get_body_velocity()(0);
  }
  std::ifstream in("v_body_frame.txt");
  double t, x, y, z, last = 0;
  while (in >> t >> x >> y >> z) last = x;
  expect(want > 100 && last == want, "the logged body velocity is exact");
  puts("DEMO ok");
}

#include "demo.hpp"
#include <sstream>
#include <thread>
int main() {
  put("e.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_rate: 1\n  pose_log_file: p.txt\n  vel_log_file: v.txt\nstate:\n  x: 0\n");
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: false\n");
  ImuBuf b;
  {
    estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
    e.add_imu_propagation(b.q, b.m, "imu.yaml");
    b.q->push(imu(9, 0, 0, 0));
    e.InitState();
    for (double t : {10.0, 11.75, 12.25, 12.5, 13.0, 14.0}) {
      b.q->push(imu(t, 0, 0, 0));
      e.RunOnce();  // publishes the state at the previous sample's time
    }
  }
  std::ifstream in("p.txt");
  std::string line;
  std::vector<double> ts;
  while (std::getline(in, line)) ts.push_back(std::stod(line));
  std::vector<double> want{9.0, 10.0, 11.75, 13.0};
  expect(ts == want, "logged states are at least one period apart");
  puts("DEMO ok");
}

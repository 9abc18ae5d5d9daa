#include "demo.hpp"
#include "wheel_odometry/wheel_odometry.h"
int main() {
  put("w.yaml", "logger:\n  enable_pose_logger: true\n  pose_log_file: w.txt\n  pose_log_rate: 1\n");
  VelBuf v;
  Buf<AngularVelocityMeasurement<double>> a;
  {
    baseline::WheelOdometry o(v.q, v.m, a.q, a.m, "w.yaml");
    for (int i = 0; i < 3; i++) {
      v.q->push(vel(10 + i, 1, 0, 0));
      auto w = std::make_shared<AngularVelocityMeasurement<double>>();
      w->set_time(10 + i);
      w->set_angular_velocity(0, 0, M_PI / 2);
      a.q->push(w);
      o.RunOnce();
    }
  }
  std::ifstream in("w.txt");
  double t, x, y, z, q[4], lx = 0, ly = 0;
  int n = 0;
  while (in >> t >> x >> y >> z >> q[0] >> q[1] >> q[2] >> q[3]) lx = x, ly = y, n++;
  expect(n == 2, "two poses");
  expect(std::fabs(lx - 1) < 1e-9 && std::fabs(ly - 1) < 1e-9, "one metre ahead, then one metre to the left");
  puts("DEMO ok");
}

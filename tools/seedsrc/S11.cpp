#include "demo.hpp"
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: true\n  init_bias_size: 2\n  rotation_imu2body: [0.6, 0.8, 0, 0]\n  translation_imu2body: [0, 0.5, 0]\n");
  ImuBuf b;
  ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
  Eigen::Matrix3d R = Eigen::Quaterniond(0.6, 0.8, 0, 0).toRotationMatrix();
  Eigen::Vector3d w(0.2, -0.3, 1), f(0.1, 0.2, 9.8), t(0, 0.5, 0);
  for (int i = 0; i < 2; i++) b.q->push(imu(1 + i, w(0), w(1), w(2), f(0), f(1), f(2)));
  for (int i = 0; i < 3; i++) p.InitImuBias();
  expect(p.get_bias_initialized(), "bias initialised");
  Eigen::Vector3d wb = R * w, ba = R * f - wb.cross(wb.cross(t)) + Eigen::Vector3d(0, 0, -9.80);
  expect((p.get_estimate_gyro_bias() - wb).norm() < 1e-9, "gyro bias");
  expect((p.get_estimate_accel_bias() - ba).norm() < 1e-9, "accelerometer bias");
  puts("DEMO ok");
}

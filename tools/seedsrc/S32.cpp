#include "demo.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
int main() {
  put("g.yaml", "noises:\n  ang_vel_std: 1\n  ang_vel_bias_std: 2\n  filter_std: 0.5\n  filter_bias_std: 0.25\n  imu_meas_noise_std: 0.5\n  encoder_meas_noise_std: 0.7\n");
  typedef AngularVelocityMeasurement<double> AV;
  ImuBuf b;
  Buf<AV> e;
  imu_filter::ImuAngVelEKF f("g.yaml");
  f.add_imu_correction(b.q, b.m);
  f.add_ang_vel_correction(e.q, e.m);
  f.RunOnce();  // initialise
  double x = 0, c = 0;
  Eigen::Matrix2d P, Q;
  P << 1, 0, 0, 4;
  Q << 0.25, 0, 0, 0.0625;
  Eigen::Vector2d s(0, 0);
  double z[] = {1, 0.4, 1.3, 0.2};
  for (int i = 0; i < 4; i++) {
    bool enc = i % 2;
    if (enc) {
      auto a = std::make_shared<AV>();
      a->set_time(i);
      a->set_angular_velocity(0, 0, z[i]);
      e.q->push(a);
    } else {
      b.q->push(imu(i, 0, 0, z[i]));
    }
    f.RunOnce();
    P += Q;
    Eigen::RowVector2d H(1, enc ? 0 : 1);
    double S = (H * P * H.transpose())(0) + (enc ? 0.49 : 0.25);
    Eigen::Vector2d K = P * H.transpose() / S;
    s += K * (z[i] - (H * s)(0));
    P = ((Eigen::Matrix2d::Identity() - K * H) * P).eval();
    auto q = f.get_filtered_imu_data_buffer_ptr();
    expect((int)q->size() == i + 1, "one output per sample");
    expect(std::fabs(q->back()->get_angular_velocity()(2) - s(0)) < 1e-9, "the fused rate");
  }
  puts("DEMO ok");
}

#include "demo.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
int main() {
  put("g.yaml", "noises:\n  x: 0\nsettings:\n  correction_method: 0\n  t_threshold: 0.03\npriors:\n  x: 0\n");
  imu_filter::ImuAngVelEKF f("g.yaml");
  ImuBuf i;
  Buf<AngularVelocityMeasurement<double>> a;
  f.add_imu_correction(i.q, i.m);
  f.add_ang_vel_correction(a.q, a.m);
  f.RunOnce();
  auto av = [](double t) {
    auto m = std::make_shared<AngularVelocityMeasurement<double>>();
    m->set_time(t);
    m->set_angular_velocity(0, 0, 0.5);
    return m;
  };
  i.q->push(imu(1.00, 0, 0, 0.4));
  f.RunOnce();
  i.q->push(imu(1.03, 0, 0, 0.4));
  a.q->push(av(1.02));
  for (int k = 0; k < 3; k++) f.RunOnce();
  auto q = f.get_filtered_imu_data_buffer_ptr();
  expect(q->size() == 3, "three filtered samples");
  double t = 0;
  while (!q->empty()) {
    expect(q->front()->get_time() >= t, "filtered samples come out in time order");
    t = q->front()->get_time();
    q->pop();
  }
  puts("DEMO ok");
}

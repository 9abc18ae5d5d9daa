#include "demo.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
int main() {
  put("g.yaml", "noises:\n  ang_vel_std: 0.1\nsettings:\n  correction_method: 0\n");
  ImuBuf b;
  imu_filter::ImuAngVelEKF f("g.yaml");
  f.add_imu_correction(b.q, b.m);
  for (int i = 0; i < 3; i++) b.q->push(imu(1 + i, 0, 0, 1));
  for (int i = 0; i < 5; i++) f.RunOnce();
  expect(f.get_filtered_imu_data_buffer_ptr()->size() == 3, "three filtered samples");
  f.clear();
  expect(f.get_filtered_imu_data_buffer_ptr()->empty(), "none after the reset");
  puts("DEMO ok");
}

#include <thread>
#include "demo.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
int main() {
  put("g.yaml", "noises:\n  ang_vel_std: 0.1\nsettings:\n  correction_method: 0\n");
  ImuBuf b;
  imu_filter::ImuAngVelEKF f("g.yaml");
  f.add_imu_correction(b.q, b.m);
  for (int i = 0; i < 3; i++) b.q->push(imu(1 + i, 0, 0, 1));
  for (int i = 0; i < 5; i++) f.RunOnce();
  auto q = f.get_filtered_imu_data_buffer_ptr();
  auto m = f.get_filtered_imu_data_buffer_mutex_ptr();
  m->lock();
  size_t n = q->size();
  std::thread t([&] { f.clear(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(500));
  bool same = q->size() == n;
  m->unlock();
  t.join();
  expect(n == 3 && same, "the queue does not change while a reader holds its lock");
  expect(q->empty(), "the reset empties it afterwards");
  puts("DEMO ok");
}

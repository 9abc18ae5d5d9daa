#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
#include <thread>
#include "demo.hpp"
#include "drift/imu_filter/imu_ang_vel_ekf.h"
// Whenever the filter's step releases the encoder queue's lock, a reset (done
// in place, as another thread could at that moment) empties the queue and a
// new sample arrives.
static pthread_mutex_t* watched = nullptr;
static bool subject = false;
static void (*hook)() = nullptr;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  if (subject && m == watched) {
    subject = false;
    hook();
  }
  return r;
}
typedef AngularVelocityMeasurement<double> AV;
static Buf<AV> enc;
static std::shared_ptr<AV> av(double t) {
  auto a = std::make_shared<AV>();
  a->set_time(t);
  a->set_angular_velocity(0, 0, 1);
  return a;
}
int main() {
  put("g.yaml", "noises:\n  ang_vel_std: 0.1\nsettings:\n  correction_method: 0\n");
  ImuBuf b;
  imu_filter::ImuAngVelEKF f("g.yaml");
  f.add_gyro_propagate(b.q, b.m);
  f.add_ang_vel_correction(enc.q, enc.m);
  f.RunOnce();  // initialise
  watched = enc.m->native_handle();
  auto keep = av(2);
  static std::shared_ptr<AV> k;
  k = keep;
  hook = [] {
    std::lock_guard<std::mutex> l(*enc.m);
    while (!enc.q->empty()) enc.q->pop();
    enc.q->push(k);
  };
  b.q->push(imu(1, 0, 0, 0.5));
  enc.q->push(av(1));
  subject = true;
  f.RunOnce();
  subject = false;
  expect(enc.q->size() == 1 && enc.q->front() == keep, "the sample that arrived after the reset is still queued");
  puts("DEMO ok");
}

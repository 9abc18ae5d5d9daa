#include <pthread.h>
#include <dlfcn.h>
#include "demo.hpp"
// Just before the prediction gets the queue's lock, another user of the queue
// (played in place) has had it and taken the sample.
static pthread_mutex_t* watched = nullptr;
static ImuBuf* buf = nullptr;
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (watched && m == watched) {
    watched = nullptr;
    real(m);
    while (!buf->q->empty()) buf->q->pop();
    pthread_mutex_unlock(m);
  }
  return real(m);
}
using namespace filter::inekf;
int main() {
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: false\n");
  ImuBuf b;
  buf = &b;
  ImuPropagation p(b.q, b.m, ErrorType::RightInvariant, "imu.yaml");
  RobotState s;
  b.q->push(imu(1.0, 0, 0, 0));
  p.set_initial_state(s);
  auto keep = imu(1.1, 0, 0, 0);
  b.q->push(keep);
  watched = b.m->native_handle();
  bool used = p.Propagate(s);
  expect(b.q->size() == 0, "nothing is taken from an empty queue");
  expect(!used, "nothing was used");
  puts("DEMO ok");
}

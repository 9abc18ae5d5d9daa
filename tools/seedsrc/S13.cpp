#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
#include <thread>
#include "demo.hpp"
// After the estimator's thread has released a lock it watches, another thread
// takes that lock; while it holds it the queue must not change.
static std::atomic<pthread_mutex_t*> watched{nullptr};
static std::atomic<int> held{0}, phase{0};
static thread_local bool subject = false;
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  if (subject && m == watched.load()) {
    phase = 1;
    while (phase.load() == 1) std::this_thread::yield();
  }
  return r;
}
int main() {
  put("e.yaml", "logger:\n  enable_pose_logger: false\nstate:\n  x: 0\n");
  put("imu.yaml", "noises:\n  gyroscope_std: 0.1\nsettings:\n  static_bias_initialization: false\n");
  ImuBuf b;
  estimator::InekfEstimator e(ErrorType::RightInvariant, "e.yaml");
  e.add_imu_propagation(b.q, b.m, "imu.yaml");
  b.q->push(imu(1, 0, 0, 0));
  auto mx = e.get_robot_state_queue_mutex_ptr();
  auto q = e.get_robot_state_queue_ptr();
  watched = mx->native_handle();
  std::atomic<bool> done{false};
  std::thread t([&] { subject = true; e.InitState(); done = true; });
  bool bad = false;
  while (!done) {
    if (phase.load() == 1) {
      mx->lock();
      size_t before = q->size();
      phase = 0;
      std::this_thread::sleep_for(std::chrono::milliseconds(300));
      if (q->size() != before) bad = true;
      mx->unlock();
    }
    std::this_thread::yield();
  }
  t.join();
  expect(!bad, "the queue changed while another thread held its lock");
  expect(q->size() == 1, "one state published");
  puts("DEMO ok");
}

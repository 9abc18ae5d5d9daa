// A stand-in for the part of roscpp that drift's wrapper uses.  Nothing is sent anywhere: subscriptions
// and publications are recorded, and the publishing loops advance only when the harness says so.
#pragma once
#include <any>
#include <atomic>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
namespace ros {
struct Time {
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  Time& fromSec(double t) {
    int64_t s = (int64_t)std::floor(t);
    if (s < 0 || s > (int64_t)UINT32_MAX) throw std::runtime_error("Time is out of dual 32-bit range");
    sec = (uint32_t)s;
    nsec = (uint32_t)std::llround((t - sec) * 1e9);
    sec += nsec / 1000000000ul;
    nsec %= 1000000000ul;
    return *this;
  }
  bool operator==(const Time& o) const { return sec == o.sec && nsec == o.nsec; }
  static Time now() { return Time(1, 0); }
};
struct Duration {
  double d;
  explicit Duration(double x = 0) : d(x) {}
  double toSec() const { return d; }
  bool sleep() const;
};

namespace stub {
struct Published {
  std::string topic;
  std::any msg;
};
// Gate of the loops: every ros::Rate waits in its constructor and in sleep() until granted an iteration.
struct World {
  std::mutex m;
  std::condition_variable cv;
  std::atomic<bool> down{false};
  bool controlled = true;                 // false: loops run freely (another scheduler decides)
  std::map<double, int> grants, waiting;  // by rate
  std::map<std::string, std::vector<std::any>> subs;
  std::vector<std::any> syncs;
  std::vector<std::string> advertised;
  std::vector<Published> out;
  std::function<void(const std::string&, std::any)> sink;   // takes the publications when not controlled
  void wait(double rate) {
    std::unique_lock<std::mutex> l(m);
    waiting[rate]++;
    cv.notify_all();
    cv.wait(l, [&] { return down.load() || grants[rate] > 0; });
    if (!down) grants[rate]--;
    waiting[rate]--;
    cv.notify_all();
  }
  bool wait_arrived(double rate) {        // until the loop of that rate stands at its gate
    std::unique_lock<std::mutex> l(m);
    return cv.wait_for(l, std::chrono::seconds(20), [&] { return waiting[rate] > 0; });
  }
  bool iterate(double rate) {             // let that loop run once
    if (!wait_arrived(rate)) return false;
    {
      std::unique_lock<std::mutex> l(m);
      grants[rate]++;
      cv.notify_all();
      if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return grants[rate] == 0; })) return false;
    }
    return wait_arrived(rate);
  }
  void shutdown() {
    std::unique_lock<std::mutex> l(m);
    down = true;
    cv.notify_all();
  }
};
inline World*& world() {
  static World* w = nullptr;
  return w;
}
inline void (*&rate_hook())() {
  static void (*h)() = nullptr;
  return h;
}
}  // namespace stub

inline bool ok() {
  auto* w = stub::world();
  if (!w->controlled) return !w->down;
  std::unique_lock<std::mutex> l(w->m);
  return !w->down;
}
inline void spinOnce() {}
inline void spin() {}
inline void shutdown() { stub::world()->shutdown(); }
inline void waitForShutdown() {
  auto* w = stub::world();
  std::unique_lock<std::mutex> l(w->m);
  w->cv.wait(l, [&] { return w->down.load(); });
}
inline bool Duration::sleep() const { return true; }
struct Rate {
  double r;
  explicit Rate(double rate) : r(rate) { gate(); }
  bool sleep() { gate(); return true; }
  void gate() {
    if (stub::world()->controlled) stub::world()->wait(r);
    else if (stub::rate_hook()) stub::rate_hook()();
  }
};
struct AsyncSpinner {
  explicit AsyncSpinner(uint32_t) {}
  void start() {}
  void stop() {}
};
struct MultiThreadedSpinner {
  explicit MultiThreadedSpinner(uint32_t = 0) {}
  void spin() {}
};
struct Subscriber {
  std::string topic;
  void shutdown() {}
};
struct Publisher {
  std::string topic;
  template <class M>
  void publish(const M& msg) const {
    auto* w = stub::world();
    if (!w->controlled) {
      w->sink(topic, msg);
      return;
    }
    std::unique_lock<std::mutex> l(w->m);
    w->out.push_back({topic, msg});
  }
};
struct NodeHandle {
  template <class M>
  Subscriber subscribe(const std::string& topic, uint32_t, const boost::function<void(const boost::shared_ptr<const M>&)>& f) {
    stub::world()->subs[topic].push_back(std::any(f));
    return Subscriber{topic};
  }
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool = false) {
    stub::world()->advertised.push_back(topic);
    return Publisher{topic};
  }
};
}  // namespace ros

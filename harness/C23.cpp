// C23: the wheel-odometry baseline.
#include "wheel_odometry/wheel_odometry.h"
#include "kit.hpp"
using namespace kit;

namespace {
struct Line {
  double t;
  V3 p;
  M3 R;
};
struct Ref {
  bool started = false, log = true;
  double t = 0, last = 0, period = 0.1;
  V3 p = V3::Zero();
  M3 R = M3::Identity();
  std::deque<std::pair<double, V3>> vq, wq;
  std::vector<Line> lines;
  int pairs = 0;
  void run() {
    if (vq.empty() || wq.empty()) return;
    auto v = vq.front();
    auto w = wq.front();
    vq.pop_front();
    wq.pop_front();
    pairs++;
    if (!started) {
      started = true;
      t = v.first;
      return;
    }
    double dt = v.first - t;
    t = v.first;
    p += R * v.second * dt;
    R = R * ref::exp_so3(V3(w.second * dt));
    if (log && t - last >= period) {
      lines.push_back({t, p, R});
      last = t;
    }
  }
};
std::vector<std::vector<double>> parse(const std::string& f) {
  std::vector<std::vector<double>> r;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    std::vector<double> x;
    double d;
    while (s >> d) x.push_back(d);
    if (!s.eof()) x.push_back(std::nan(""));
    r.push_back(x);
  }
  return r;
}
const V3 VS[] = {V3(1, 0, 0), V3(0.5, -0.3, 0.2), V3(0, 0, 0), V3(-2, 0.1, 0)};
const V3 WS[] = {V3(0, 0, 0.7), V3(0, 0, 0), V3(0.4, -1.1, 2.0), V3(0, 0, 1e-11)};
const double DT[] = {1.0 / 16, 1.0 / 8, 0, 1};

void program(mc::MC& m) {
  Ref r;
  static const double t0s[] = {0, 5, 1.7e9};
  double t0 = t0s[m.choose(3, "first time stamp")];
  int lc = m.choose(5, "log");
  std::string f = scratch() + "/wheel";
  if (lc == 2) {
    mkdir((scratch() + "/logs.d").c_str(), 0700);
    f = scratch() + "/logs.d/wheel";
  }
  std::string ext = lc == 1 ? ".csv" : lc == 2 ? "" : ".txt", file = f + ext;
  unlink((f + ".txt").c_str());
  Yaml y;
  y.set("logger", "enable_pose_logger", OB(lc != 4));
  if (lc != 4) y.set("logger", "pose_log_file", OS("\"" + file + "\""));
  if (lc == 1) { y.set("logger", "pose_log_rate", OD(4)); r.period = 1.0 / 4; }
  if (lc == 2) { y.set("logger", "pose_log_rate", OD(16)); r.period = 1.0 / 16; }
  if (lc == 3) { y.set("logger", "pose_log_rate", OD(1)); r.period = 1; }
  r.log = lc != 4;
  Buf<VelocityQueue> bv;
  Buf<AngularVelocityQueue> bw;
  double tv = t0, tw = t0;
  int nv = 0, nw = 0;
  std::vector<std::pair<std::shared_ptr<Measurement>, double>> given;
  auto queues = [&] {
    m.check(bv.q->size() == r.vq.size() && bw.q->size() == r.wq.size(), "pairing",
            mc::fmt("%d velocities and %d turn rates wait, expected %d and %d", (int)bv.q->size(), (int)bw.q->size(), (int)r.vq.size(), (int)r.wq.size()));
    if (!r.vq.empty()) m.check(bv.q->front()->get_time() == r.vq.front().first && near(bv.q->front()->get_velocity(), r.vq.front().second, 0, 0), "order", "the wrong velocity was taken");
    if (!r.wq.empty()) m.check(bw.q->front()->get_time() == r.wq.front().first && near(bw.q->front()->get_angular_velocity(), r.wq.front().second, 0, 0), "order", "the wrong turn rate was taken");
    bool a = bv.m->try_lock(), b = bw.m->try_lock();
    if (a) bv.m->unlock();
    if (b) bw.m->unlock();
    m.check(a && b, "locks", "a queue lock is still held after a step");
  };
  auto compare = [&] {
    if (lc == 4) {
      m.check(access((f + ".txt").c_str(), F_OK) != 0, "log", "a log was written though logging is off");
      return;
    }
    auto l = parse(f + ".txt");
    m.check(l.size() == r.lines.size(), "log-rate", mc::fmt("%d poses logged, expected %d", (int)l.size(), (int)r.lines.size()));
    for (size_t i = 0; i < l.size(); i++) {
      m.check(l[i].size() == 8, "log-format", "a log line does not have eight numbers");
      m.check(l[i][0] == r.lines[i].t, "log-time", mc::fmt("pose %d is logged with time %.17g, expected %.17g", (int)i, l[i][0], r.lines[i].t));
      V3 p(l[i][1], l[i][2], l[i][3]);
      m.check(near(p, r.lines[i].p, 1e-9, 1e-9), "position", mc::fmt("position [%s], expected [%s]", ms(p.transpose()).c_str(), ms(r.lines[i].p.transpose()).c_str()));
      Eigen::Quaterniond q(l[i][7], l[i][4], l[i][5], l[i][6]);
      m.check(std::fabs(q.norm() - 1) < 1e-9, "quaternion", "the logged quaternion is not of unit length");
      m.check((q.toRotationMatrix() - r.lines[i].R).norm() < 1e-8, "orientation", "wrong orientation logged");
    }
  };
  {
    baseline::WheelOdometry o(bv.q, bv.m, bw.q, bw.m, y.write("wheel"));
    auto run = [&] { m.step(); r.run(); o.RunOnce(); queues(); };
    auto pv = [&](int k) {
      if (nv) tv += DT[k];
      V3 v = VS[nv++ % 4];
      r.vq.push_back({tv, v});
      bv.q->push(vel(tv, v));
    };
    auto pw = [&](int k) {
      tw += 0.01;
      V3 w = WS[(nw + k) % 4];
      nw++;
      r.wq.push_back({tw, w});
      bw.q->push(angvel(tw, w));
    };
    if (m.flag("long run")) {
      int n = m.thorough ? 1500 : 300, lag = m.choose(3, "steps per pair");   // 0: all wait, 1: keeps up, 2: falls behind first
      for (int i = 0; i < n; i++) {
        pv(i % 7 == 6 ? 2 : i % 2);
        if (lag != 2 || i >= 150) pw(0);
        if (lag) run();
      }
      if (lag == 2) for (int i = 0; i < 150; i++) { pw(1); if (i % 2) run(); }
      while (!r.vq.empty() && !r.wq.empty()) run();
      compare();
    }
    int depth = r.pairs ? 1 : m.thorough ? 6 : lc == 2 && t0 == 0 ? 5 : 4;
    for (int i = 0; i < depth; i++) {
      int k = m.choose(11, "operation");
      if (k == 0) run();
      else if (k < 3) { pv(k - 1); m.step(); }
      else if (k < 5) { pw(k - 3); m.step(); }
      else if (k < 9) { pv(k - 5); pw(k - 5); run(); }
      else { pv(k - 9); pw(1); pv(3); pw(2); run(); }
      m.state(mc::hash_d(mc::hash_d(mc::hash_mix(r.vq.size() * 64 + r.wq.size(), lc), r.t), r.p(0)) ^ mc::hash_d(r.p(1), r.R(0, 1)));
    }
    compare();
    while (!r.vq.empty() && !r.wq.empty()) run();
    pv(3); pw(0);
    run();
    run();
  }
  compare();
  if (r.lines.size() > 1) m.count("logs with several poses");
  m.validated();
}
}  // namespace
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one sequence of velocity and turn-rate arrivals and steps on a real WheelOdometry object; queues compared with a reference after each step, the log file compared after the sequence and after destruction";
  o.bounds = "3 first time stamps (0, 5, 1.7e9) x 5 log settings x all sequences of 4-5 (6) operations out of 11 (step, either reading alone, a pair and a step for 4 intervals, two pairs and a step); runs of 300 (1500) pairs";
  return o;
}
MC_MAIN(options)

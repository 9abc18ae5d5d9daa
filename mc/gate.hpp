// C04/C06: which measurements are applied, dropped or kept, for all histories of arrivals, predictions
// and steps.  All time stamps are multiples of 1/64, so the thresholds are hit exactly.
#pragma once
#include "model.hpp"
namespace gate {
using namespace model;

inline LegS leg_sample(double t, int i) {
  LegS s;
  s.t = t;
  s.c = {i % 2 == 0, i % 3 != 2};
  s.pos = {V3(0.3, 0.2 + 0.01 * i, -0.4), V3(0.28, -0.21, -0.41 - 0.01 * i)};
  M3 J;
  J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15;
  s.J = {J, 1.3 * J};
  return s;
}

struct Drive {
  mc::MC& m;
  Pair& p;
  bool legs;
  int pushed = 0, applied = 0, dropped = 0;
  double t_imu;
  void push(size_t k, double t) {
    pushed++;
    if (legs) p.push(k, leg_sample(t, pushed));
    else p.push(k, VelS{t, V3(0.4 + 0.1 * pushed, -0.3, 0.2 + 0.05 * k)});
  }
  void imu(double dt) {
    t_imu += dt;
    p.push(ImuS{t_imu, V3(0.2, -0.1, 0.4), V3(0.5, -0.3, 9.6), {}});
  }
  void run() {
    size_t n = p.r.est.get_robot_state_queue_ptr()->size();
    uint64_t before = hash_state(p.r.est.get_state());
    auto qn = [&] { size_t s = p.m.iq.size(); for (auto& q : p.m.vq) s += q.size(); for (auto& q : p.m.lq) s += q.size(); return s; };
    size_t q0 = qn();
    p.run_once();
    m.step();
    std::string e = p.diff_queues();
    m.check(e.empty(), "queue", e);
    bool pub = p.r.est.get_robot_state_queue_ptr()->size() > n;
    e = p.diff_published();
    m.check(e.empty(), "applied", e);
    e = p.diff_estimate();
    m.check(e.empty(), "applied", e);
    if (!pub) {
      m.check(before == hash_state(p.r.est.get_state()), "untouched", "a step without new information changed the estimate");
      if (qn() != q0) m.count("steps that only dropped measurements");
      else m.count("steps without effect");
    } else m.count("steps with new information");
    m.state(mc::hash_mix(hash_state(p.r.est.get_state()), qn()));
  }
};

inline void program(mc::MC& m, bool legs) {
  Cfg c;
  int nsens = 1 + m.choose(2, "second sensor");
  int cfg = m.choose(3, "configuration");
  double thr = cfg == 0 ? 0.25 : cfg == 1 ? 0.0625 : 0.3;
  c.left = cfg == 1;
  c.imu.bias_update = cfg != 2;
  for (int i = 0; i < nsens; i++) {
    Cfg::Corr k;
    k.legs = legs;
    if (cfg != 2) { k.v.thres = thr; k.l.thres = thr; }   // 2: documented default
    if (i == 1) { k.v.thres = 0.125; k.l.thres = 0.125; }
    c.corr.push_back(k);
  }
  Pair p(c);
  double t0 = cfg == 1 ? 1700000000 : 16;     // also seconds since 1970
  Drive d{m, p, legs};
  d.t_imu = t0;
  for (int i = 0; i < nsens; i++) d.push(i, t0);
  p.push(ImuS{t0, V3(0.1, 0.2, -0.3), V3(0.3, 0.1, 9.7), {}});
  p.init_state();
  std::string e = p.diff_published();
  m.check(e.empty(), "initial", e);
  d.imu(0.125);
  d.run();
  d.imu(0.125);
  d.run();   // the state is now predicted to t0 + 0.125
  std::vector<double> rel;
  if (cfg == 0) rel = {-0.015625, 0, 0.25, -0.25, -0.265625, 0.265625};
  if (cfg == 1) rel = {-0.015625, 0, 0.0625, -0.0625, -0.078125, 0.078125};
  if (cfg == 2) rel = {-0.015625, 0, 0.296875, -0.296875, -0.3125, 0.3125};
  if (m.flag("long queues")) {
    // many measurements waiting at once: all stale but the last few, all due, or a repeating mixture
    int kind = m.choose(4, "kind"), n = (m.thorough ? 400 : 120) + m.choose(2, "odd");
    for (int k = 0; k < nsens; k++)
      for (int i = 0; i < n; i++) {
        double due = p.m.tp - 0.046875 + 0.03125 * i / n;
        d.push(k, kind == 0 ? (i < n - 3 ? p.m.tp - 1.0 + i / 1024.0 : due) : kind == 1 ? due : kind == 2 ? p.m.tp + rel[(i + k) % rel.size()] : p.m.tp - 1.0 + i / 1024.0);
      }
    for (int i = 0; i < n + 5; i++) {
      if (i % 40 == 39) d.imu(0.015625);
      d.run();
    }
    m.validated();
    return;
  }
  int depth = (m.thorough ? 6 : 5) - (nsens - 1);
  int np = (int)rel.size();
  for (int i = 0; i < depth; i++) {
    int op = m.choose(np * nsens + 3, "op");
    if (op == 0) d.run();
    else if (op == 1) { d.imu(0.125); d.run(); }
    else if (op == 2) { d.imu(0.40625); d.imu(0.015625); d.run(); }
    else {
      op -= 3;
      d.push(op / np, p.m.tp + rel[op % np]);
    }
  }
  d.run();   // whatever is pending is decided now and after one more prediction
  d.imu(0.25);
  d.run();
  d.run();
  m.validated();
}
inline mc::Options options(void (*prog)(mc::MC&)) {
  mc::Options o;
  o.program = prog;
  o.split_depth = 4;
  o.what = "one history of measurement arrivals (time stamps before, at and after both thresholds), predictions and filter steps on the real estimator; after every step the queues, published states, mean and covariance are compared with the reference estimator";
  o.bounds = "all histories of 5 (6) operations out of 9 with one sensor, and of 4 (5) operations out of 15 with two sensors, x 3 configurations (thresholds 0.25, 0.0625, default 0.3; error types; bias modes); every history is closed by three more steps; and 4 kinds of queues with 120 (400) measurements waiting";
  return o;
}
}  // namespace gate

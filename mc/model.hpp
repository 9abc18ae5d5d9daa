// Reference model of the whole estimator: queues, time gates, life cycle and the reference InEKF.
// The history harnesses run every operation on the library and on this model and compare.
#pragma once
#include <deque>
#include "kit.hpp"

namespace model {
using namespace kit;

struct ImuS { double t; V3 w, a; OV q; };
struct VelS { double t; V3 v; };
struct LegS { double t; std::vector<bool> c; std::vector<V3> pos; std::vector<M3> J; V3 iv = V3::Zero(), ig = V3::Zero(); };

struct Cfg {
  bool left = false;
  ImuCfg imu;
  EstCfg est;
  struct Corr { bool legs = false; VelCfg v; LegCfg l; };
  std::vector<Corr> corr;
};
struct Pub { Belief b; double t, tprop; };

struct Model {
  Cfg c;
  explicit Model(const Cfg& cfg) : c(cfg), vq(cfg.corr.size()), lq(cfg.corr.size()) {
    bg0 = v3(c.imu.bg);
    ba0 = v3(c.imu.ba);
    reset_belief();
  }
  Belief b;
  double t = 0, tp = 0;
  V3 body_w = V3::Zero();
  std::deque<ImuS> iq;
  std::vector<std::deque<VelS>> vq;
  std::vector<std::deque<LegS>> lq;
  ref::Contacts con;
  std::optional<ImuS> prev;
  std::deque<Pub> pub;
  bool enabled = false, bias_ready = false;
  V3 bg0, ba0;
  std::vector<std::pair<V3, V3>> bias_samples;

  bool bias() const { return c.imu.bias_update.value_or(false); }
  M3 Ri() const { return quatR(c.imu.rot); }
  V3 ti() const { return v3(c.imu.trans); }
  ref::Noise noise() const {
    return {sq(c.imu.gyro_std.value_or(0.1)), sq(c.imu.acc_std.value_or(0.1)), sq(c.imu.gyro_bias_std.value_or(0.1)),
            sq(c.imu.acc_bias_std.value_or(0.1))};
  }
  void reset_belief() {
    b = Belief();
    b.P = Mat::Identity(15, 15);
    con.legs.clear();
  }
  bool propagate() {
    if (iq.empty()) return false;
    auto use = prev;
    prev = iq.front();
    iq.pop_front();
    if (!use) return false;
    double dt = use->t - tp;
    t = tp = use->t;
    V3 w = Ri() * use->w - b.bg;
    V3 a = Ri() * use->a - b.ba - w.cross(w.cross(ti()));
    ref::predict(b, w, a, dt, G, noise(), bias(), c.left);
    return true;
  }
  bool correct_vel(size_t k) {
    auto& q = vq[k];
    auto& v = c.corr[k].v;
    double thr = v.thres.value_or(0.3);
    while (!q.empty() && q.front().t - tp < -thr) q.pop_front();   // too old: dropped
    if (q.empty() || q.front().t - tp >= 0) return false;          // not due yet: kept
    VelS s = q.front();
    q.pop_front();
    t = s.t;
    ref::correct_velocity(b, quatR(v.rot) * (v.scale.value_or(1.0) * s.v), sq(v.std.value_or(0.1)) * M3::Identity(), bias(), c.left);
    return true;
  }
  bool correct_leg(size_t k) {
    auto& q = lq[k];
    auto& l = c.corr[k].l;
    double thr = l.thres.value_or(0.3);
    while (!q.empty() && q.front().t - tp < -thr) q.pop_front();   // too old: dropped
    if (q.empty()) return false;
    LegS s = q.front();
    q.pop_front();
    if (s.t - tp > thr) return false;                              // too new: skipped
    t = s.t;
    std::vector<M3> cov;
    for (auto& J : s.J) cov.push_back(J * sq(l.enc_std.value_or(0.01)) * J.transpose() + sq(l.add_std.value_or(0.05)) * M3::Identity());
    ref::correct_legs(b, con, s.c, s.pos, cov, sq(l.contact_std.value_or(0.1)) * M3::Identity(), bias(), c.left, (int)k);
    return true;
  }
  bool run_once() {
    bool n = propagate();
    for (size_t k = 0; k < c.corr.size(); k++) n = (c.corr[k].legs ? correct_leg(k) : correct_vel(k)) || n;
    if (n) pub.push_back({b, t, tp});
    return n;
  }
  void init_bias() {
    if (!c.imu.static_init.value_or(true)) { bias_ready = true; return; }
    int n = c.imu.init_size.value_or(0);
    if ((int)bias_samples.size() < n) {
      if (iq.empty()) return;
      ImuS s = iq.front();
      iq.pop_front();
      prev = s;
      V3 w = Ri() * s.w, a = Ri() * s.a - w.cross(w.cross(ti()));
      M3 R = M3::Identity();
      if (c.imu.imu_ori.value_or(false)) R = Ri() * quatR(s.q);
      bias_samples.push_back({w, a + R.transpose() * G});
      return;
    }
    if (!bias_samples.empty()) {
      V3 sw = V3::Zero(), sa = V3::Zero();
      for (auto& p : bias_samples) { sw += p.first; sa += p.second; }
      bg0 = sw / bias_samples.size();
      ba0 = sa / bias_samples.size();
    }
    bias_ready = true;
  }
  // InitState waits for every correction; the caller guarantees the data is there
  bool init_state() {
    if (!init_begin()) return false;
    for (size_t k = 0; k < c.corr.size(); k++) init_corr(k);
    init_end();
    return true;
  }
  bool init_begin() {
    if (iq.empty()) return false;
    ImuS s = iq.front();
    iq.pop_front();
    b.R = c.imu.imu_ori.value_or(false) ? quatR(s.q) : M3(M3::Identity());
    b.p.setZero();
    b.bg = bg0;
    b.ba = ba0;
    body_w = Ri() * s.w - bg0;
    t = tp = s.t;
    prev = s;
    ref::Noise q = noise();
    int n = b.n();
    b.P.block(n, n, 3, 3) = q.gyro_b * M3::Identity();
    b.P.block(n + 3, n + 3, 3, 3) = q.acc_b * M3::Identity();
    return true;
  }
  bool init_ready(size_t k) const { return c.corr[k].legs ? !lq[k].empty() : !vq[k].empty(); }
  void init_corr(size_t k) {
    if (c.corr[k].legs) {
      LegS l = lq[k].back();
      lq[k].clear();
      b.v = b.R * (l.iv + l.ig.cross(body_w));
      t = l.t;
    } else {
      VelS v = vq[k].back();
      vq[k].clear();
      b.v = b.R * (quatR(c.corr[k].v.rot) * (c.corr[k].v.scale.value_or(1.0) * v.v));
      t = v.t;
    }
  }
  void init_end() {
    auto cv = [](const OD& s, double d) { return s ? sq(*s) : d; };
    b.P.block(0, 0, 3, 3) = cv(c.est.rot_std, 0.03) * M3::Identity();
    b.P.block(3, 3, 3, 3) = cv(c.est.vel_std, 0.01) * M3::Identity();
    b.P.block(6, 6, 3, 3) = cv(c.est.pos_std, 0.00001) * M3::Identity();
    pub.push_back({b, t, tp});
    enabled = true;
  }
  void clear() {
    iq.clear();
    for (auto& q : vq) q.clear();
    for (auto& q : lq) q.clear();
    reset_belief();
    prev.reset();
    if (!bias_ready) bias_samples.clear();
    pub.clear();
    enabled = false;
  }
};

// Empty when the library's state is what the model says.
inline std::string diff_state(const RobotState& s, const Belief& b, double t, double tp, bool bias, double tol_mean = 1e-8, double tol_cov = 1e-7) {
  std::string e;
  if (!(e = diff_structure(s)).empty()) return e;
  if (!same_time(s.get_time(), t)) return mc::fmt("time is %.17g, expected %.17g", s.get_time(), t);
  if (!same_time(s.get_propagate_time(), tp)) return mc::fmt("propagation time is %.17g, expected %.17g", s.get_propagate_time(), tp);
  Belief g = from_state(s);
  if (!(e = diff_mean(g, b, tol_mean)).empty()) return e;
  if (!(e = diffP(g.P, b.P, tol_cov, !bias)).empty()) return e;
  for (size_t i = 0; i < b.dnoise.size(); i++)
    if (!near(g.dnoise[i], b.dnoise[i])) return mc::fmt("process noise of augmented point %d is [%s], expected [%s]", (int)i, ms(g.dnoise[i]).c_str(), ms(b.dnoise[i]).c_str());
  return "";
}

// The library side: a real InekfEstimator and its buffers.
struct Real {
  Cfg c;
  ImuBuf ib;
  std::vector<VelBuf> vb;
  std::vector<LegBuf> lb;
  InekfEstimator est;
  explicit Real(const Cfg& cfg)
      : c(cfg), vb(cfg.corr.size()), lb(cfg.corr.size()),
        est(cfg.left ? ErrorType::LeftInvariant : ErrorType::RightInvariant, cfg.est.file()) {
    est.add_imu_propagation(ib.q, ib.m, c.imu.file());
    for (size_t k = 0; k < c.corr.size(); k++) {
      if (c.corr[k].legs) est.add_legged_kinematics_correction(lb[k].q, lb[k].m, c.corr[k].l.file());
      else est.add_velocity_correction(vb[k].q, vb[k].m, c.corr[k].v.file());
    }
  }
};

struct Pair {
  Model m;
  Real r;
  double tol_mean = 1e-8, tol_cov = 1e-7;
  explicit Pair(const Cfg& c) : m(c), r(c) {}
  void push(const ImuS& s) {
    m.iq.push_back(s);
    r.ib.q->push(imu(s.t, s.w, s.a, s.q));
  }
  void push(size_t k, const VelS& s) {
    m.vq[k].push_back(s);
    r.vb[k].q->push(vel(s.t, s.v));
  }
  void push(size_t k, const LegS& s) {
    m.lq[k].push_back(s);
    r.lb[k].q->push(std::make_shared<TestLegs>(s.t, s.c, s.pos, s.J, s.iv, s.ig));
  }
  void run_once() { m.run_once(); r.est.RunOnce(); }
  void init_state() { m.init_state(); r.est.InitState(); }
  void init_bias() { m.init_bias(); r.est.InitBias(); }
  void clear() { m.clear(); r.est.clear(); }
  bool init_would_block() const {
    if (m.iq.empty()) return false;
    for (size_t k = 0; k < m.c.corr.size(); k++)
      if (m.c.corr[k].legs ? m.lq[k].empty() : m.vq[k].empty()) return true;
    return false;
  }
  // make both sides start from the belief b at time t
  void set_belief(const Belief& b, double t) {
    m.b = b;
    m.t = m.tp = t;
    r.est.set_state(to_state(b, m.bias(), t));
  }
  std::string diff_queues() const {
    if (r.ib.q->size() != m.iq.size()) return mc::fmt("%d IMU samples queued, expected %d", (int)r.ib.q->size(), (int)m.iq.size());
    for (size_t k = 0; k < m.c.corr.size(); k++) {
      size_t g = m.c.corr[k].legs ? r.lb[k].q->size() : r.vb[k].q->size();
      size_t e = m.c.corr[k].legs ? m.lq[k].size() : m.vq[k].size();
      if (g != e) return mc::fmt("%d measurements queued for correction %d, expected %d", (int)g, (int)k, (int)e);
      if (e && !m.c.corr[k].legs && r.vb[k].q->front()->get_time() != m.vq[k].front().t) return "wrong measurement left at the head of the queue";
      if (e && m.c.corr[k].legs && r.lb[k].q->front()->get_time() != m.lq[k].front().t) return "wrong measurement left at the head of the queue";
    }
    return "";
  }
  std::string diff_state(const RobotState& s, const Belief& b, double t, double tp) const {
    return model::diff_state(s, b, t, tp, m.bias(), tol_mean, tol_cov);
  }
  // current estimate; times only once initialised
  std::string diff_estimate() const {
    RobotState s = r.est.get_state();
    return diff_state(s, m.b, m.t, m.tp);
  }
  // compare and consume the published states
  std::string diff_published() {
    auto q = r.est.get_robot_state_queue_ptr();
    if (q->size() != m.pub.size()) return mc::fmt("%d states published, expected %d", (int)q->size(), (int)m.pub.size());
    while (!q->empty()) {
      auto s = q->front();
      q->pop();
      Pub p = m.pub.front();
      m.pub.pop_front();
      std::string e = diff_state(*s, p.b, p.t, p.tprop);
      if (!e.empty()) return "published state: " + e;
    }
    return "";
  }
};
}  // namespace model

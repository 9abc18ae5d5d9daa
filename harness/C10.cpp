// C10: a reset estimator behaves like a new one.
#include <chrono>
#include <thread>
#include "gyro.hpp"
#include "model.hpp"
using namespace model;

static LegS leg(double t, int pat, int i) {
  LegS s;
  s.t = t;
  for (int l = 0; l < 3; l++) {
    s.c.push_back((pat >> l) & 1);
    s.pos.push_back(V3(0.3 - 0.3 * l, 0.2 + 0.01 * i, -0.4));
    M3 J;
    J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15;
    s.J.push_back(J);
  }
  s.iv = V3(0.1 * i, -0.2, 0.05);
  s.ig = V3(0.1, -0.3, 0.2);
  return s;
}
struct Feed {   // the same operations on any estimator
  Real& r;
  double t;
  int n = 0;
  size_t V = 99, L = 99;
  Feed(Real& real, const Cfg& c, double t0) : r(real), t(t0) {
    for (size_t k = 0; k < c.corr.size(); k++) (c.corr[k].legs ? L : V) = k;
  }
  void imu1(double dt) { t += dt; n++; r.ib.q->push(imu(t, V3(0.1 * n, -0.2, 0.3), V3(0.3, 0.1 * n, 9.7), OV{{0.8, 0.6, 0, 0}})); }
  void vel1(double rel) { n++; if (V != 99) r.vb[V].q->push(vel(t + rel, V3(0.5 + 0.1 * n, 0.2, -0.1))); }
  void leg1(double rel, int pat) {
    n++;
    if (L == 99) return;
    LegS s = leg(t + rel, pat, n);
    r.lb[L].q->push(std::make_shared<TestLegs>(s.t, s.c, s.pos, s.J, s.iv, s.ig));
  }
  bool ready() {
    if (r.ib.q->empty()) return true;   // returns at once
    if (V != 99 && r.vb[V].q->empty()) return false;
    return L == 99 || !r.lb[L].q->empty();
  }
  void start() {
    for (int i = 0; i < 5 && !r.est.BiasInitialized(); i++) { imu1(0.01); r.est.InitBias(); }
    vel1(-0.01);
    leg1(-0.01, 1);
    imu1(0.01);
    r.est.InitState();
  }
  void op(int k) {
    switch (k) {
      case 0: imu1(0.02); if (r.est.is_enabled()) r.est.RunOnce(); break;
      case 1: vel1(-0.03); if (r.est.is_enabled()) r.est.RunOnce(); break;
      case 2: leg1(-0.03, 3); if (r.est.is_enabled()) r.est.RunOnce(); break;
      case 3: leg1(-0.03, 4); if (r.est.is_enabled()) r.est.RunOnce(); break;
      case 4: if (!r.est.is_enabled()) start(); else { imu1(0.3); vel1(0.1); r.est.RunOnce(); } break;
      case 5: imu1(0.01); imu1(0.01); vel1(-0.005); leg1(-0.005, 7); vel1(0.02); break;      // left pending
      case 7: for (int i = 0; i < 150; i++) { imu1(0.002); vel1(-0.001); leg1(-0.001, i % 8); if (i % 2 && r.est.is_enabled()) r.est.RunOnce(); } break;   // much pending
      case 6: if (!r.est.BiasInitialized()) { imu1(0.01); r.est.InitBias(); } else r.est.RunOnce(); break;
    }
  }
};
static std::string same(const RobotState& a, const RobotState& b) {
  if (a.dimX() != b.dimX()) return mc::fmt("%d columns, a new estimator has %d", a.dimX(), b.dimX());
  Belief x = from_state(a), y = from_state(b);
  std::string e = diff_mean(x, y, 1e-9);
  if (!e.empty()) return e;
  if (!(e = diffP(x.P, y.P, 1e-8)).empty()) return e;
  for (size_t i = 0; i < x.dnoise.size(); i++) if (!near(x.dnoise[i], y.dnoise[i])) return "contact noise differs";
  if (a.get_time() != b.get_time() || a.get_propagate_time() != b.get_propagate_time())
    return mc::fmt("times %.9g/%.9g, a new estimator has %.9g/%.9g", a.get_time(), a.get_propagate_time(), b.get_time(), b.get_propagate_time());
  if (!near(Mat(a.get_body_angular_velocity()), Mat(b.get_body_angular_velocity()))) return "body rate differs";
  if (a.get_enable_imu_bias_update() != b.get_enable_imu_bias_update()) return "bias switch differs";
  return "";
}

// The gyro filter in front of the propagation is part of the estimator: its queues are sensor queues too.
static void gyro_filter(mc::MC& m) {
  using namespace gyro;
  using imu_filter::ImuAngVelEKF;
  typedef kit::Buf<std::queue<ImuMeasurementPtr>> IB;
  typedef kit::Buf<std::queue<AngularVelocityMeasurementPtr>> EB;
  int corr = m.choose(4, "corrections");
  bool prop = m.flag("gyro propagation");
  int built = m.choose(3, "configuration");      // added sources; static window; buffers given to the constructor
  if ((built == 1 && corr == ANGVEL) || (built == 2 && corr == MULTI)) return;
  GyroCfg c;
  c.static_init = built == 1;
  c.init_size = 2;
  int nimu = corr == MULTI ? 2 : corr == ANGVEL ? 0 : 1;
  std::vector<IB> bi(2);
  IB bg;
  EB be;
  std::unique_ptr<ImuAngVelEKF> f;
  if (built == 2) {
    c.method = corr;
    f.reset(new ImuAngVelEKF(bi[0].q, bi[0].m, be.q, be.m, c.file()));
    nimu = 1;
  } else {
    f.reset(new ImuAngVelEKF(c.file()));
    for (int i = 0; i < nimu; i++) f->add_imu_correction(bi[i].q, bi[i].m);
    if (corr == ANGVEL || corr == PLUS) f->add_ang_vel_correction(be.q, be.m);
  }
  if (prop) f->add_gyro_propagate(bg.q, bg.m);
  bool enc = built == 2 || corr == ANGVEL || corr == PLUS;
  auto out = f->get_filtered_imu_data_buffer_and_mutex_ptr();
  double now = 1;
  for (int k = 0; k < 2; k++) {
    size_t most = 0;
    if (m.flag("warm")) for (int i = 0; i < 3; i++) {
      for (int j = 0; j < nimu; j++) bi[j].q->push(imu(now, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
      if (prop) bg.q->push(imu(now, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
      f->RunOnce();
      m.step();
    }
    int depth = (m.thorough ? 4 : 3) - k;
    for (int i = 0; i < depth; i++) {
      now += 0.01;
      switch (m.choose(6, "history")) {
        case 0: for (int j = 0; j < nimu; j++) bi[j].q->push(imu(now, V3(0.1 * i, 0.2, 0.3), V3(0, 0, 9.8))); break;
        case 1: if (enc) be.q->push(angvel(now, V3(0.1, 0.1 * i, 0.4))); break;
        case 2: if (prop) bg.q->push(imu(now, V3(0.1, 0.2, 0.1 * i), V3(0, 0, 9.8))); break;
        case 3: f->RunOnce(); break;
        case 4:                                             // a burst from all sources, used up
          for (int r = 0; r < 4; r++) {
            for (int j = 0; j < nimu; j++) bi[j].q->push(imu(now, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
            if (prop) bg.q->push(imu(now, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
            if (enc) be.q->push(angvel(now, V3(0.1, 0.2, 0.4)));
          }
          for (int r = 0; r < 10; r++) f->RunOnce();
          break;
        case 5:                                             // a burst left waiting
          for (int r = 0; r < 3; r++) {
            for (int j = 0; j < nimu; j++) bi[j].q->push(imu(now, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
            if (prop) bg.q->push(imu(now + 0.01, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
            if (enc) be.q->push(angvel(now, V3(0.1, 0.2, 0.4)));
          }
          break;
      }
      m.step();
      most = std::max(most, out.first->size());
    }
    f->clear();
    m.step();
    m.check(out.first->empty(), "gyro-filter", mc::fmt("%zu filtered samples survive a reset (there were up to %zu)", out.first->size(), most));
    for (int j = 0; j < nimu; j++)
      m.check(bi[j].q->empty(), "gyro-filter", mc::fmt("%zu samples of IMU %d of the gyro filter survive a reset", bi[j].q->size(), j));
    m.check(!enc || be.q->empty(), "gyro-filter", mc::fmt("%zu encoder samples of the gyro filter survive a reset", be.q->size()));
    m.check(!prop || bg.q->empty(), "gyro-filter", mc::fmt("%zu gyro samples of the gyro filter survive a reset", bg.q->size()));
    for (int i = 0; i < 3; i++) f->RunOnce();
    m.check(out.first->empty(), "gyro-filter", "a filtered sample is produced out of nothing after a reset");
    m.state(mc::hash_mix(corr * 64 + prop * 32 + built * 8 + k, most));
  }
  m.validated();
}
// ... and the estimator's own reset reaches it (its thread is idle when the reset comes)
static void estimator_with_gyro_filter(mc::MC& m) {
  typedef kit::Buf<std::queue<ImuMeasurementPtr>> IB;
  typedef kit::Buf<std::queue<AngularVelocityMeasurementPtr>> EB;
  int n = 1 + m.choose(3, "samples waiting");
  int resets = 1 + m.choose(2, "resets");
  Cfg c;
  Cfg::Corr v;
  c.corr.push_back(v);
  if (m.flag("legs")) { v.legs = true; c.corr.push_back(v); }
  IB bi;
  EB be;
  GyroCfg g;
  g.static_init = false;
  Real used(c);
  auto out = used.est.add_imu_ang_vel_ekf(bi.q, bi.m, be.q, be.m, g.file());
  Feed f(used, c, 1);
  bool running = m.flag("running");
  for (int k = 0; k < resets; k++) {
    if (running) f.start();
    for (int i = 0; i < n; i++) {
      std::lock_guard<std::mutex> l(*bi.m);
      bi.q->push(imu(1 + 0.01 * i, V3(0.1, 0.2, 0.3), V3(0, 0, 9.8)));
    }
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    for (;;) {
      size_t have;
      { std::lock_guard<std::mutex> l(*out.second); have = out.first->size(); }
      if ((int)have >= n || std::chrono::steady_clock::now() > until) break;
      std::this_thread::yield();
    }
    used.est.clear();
    m.step();
    std::lock_guard<std::mutex> l(*out.second);
    m.check(out.first->empty(), "gyro-filter", mc::fmt("%zu filtered samples survive a reset of the estimator", out.first->size()));
    m.check(!used.est.is_enabled() && used.ib.q->empty() && used.est.get_robot_state_queue_ptr()->empty(), "queues", "the reset of an estimator with a gyro filter is incomplete");
  }
  m.validated();
}

static void program(mc::MC& m) {
  int part = m.choose(6, "part");
  if (part == 4) return gyro_filter(m);
  if (part == 5) return estimator_with_gyro_filter(m);
  Cfg c;
  int set = part;
  int cfg = m.choose(3, "configuration");
  c.left = cfg == 1;
  c.imu.bias_update = cfg != 2;
  c.imu.static_init = cfg == 1;
  c.imu.init_size = 2;
  c.imu.imu_ori = cfg == 2;
  c.imu.bg = OV{{0.01, -0.02, 0.03}};
  if (cfg == 2) { c.est.rot_std = 0.4; c.est.vel_std = 0.5; c.est.pos_std = 0.6; }
  Cfg::Corr v, g;
  v.legs = false;
  g.legs = true;
  if (set == 0 || set == 2) c.corr.push_back(v);
  if (set == 1 || set == 2) c.corr.push_back(g);      // 3: no correction at all
  Real used(c);
  const double hist = cfg == 2 ? 1.7e9 : 100, cont0 = cfg == 1 ? 1.7e9 : 1;
  Feed f(used, c, hist);
  int resets = 1 + m.choose(2, "resets");
  bool running = m.flag("start running");
  int depth = m.thorough ? 4 : 3;
  for (int k = 0; k < resets; k++) {
    if (running && k == 0) f.start();
    int d = resets == 2 ? depth - 1 - k : depth;
    for (int i = 0; i < d; i++) { f.op(m.choose(8, "history")); m.step(); }
    if (k == 1 && running) f.start();
    used.est.clear();
    m.step();
    m.check(!used.est.is_enabled(), "enabled", "filter is still enabled after a reset");
    m.check(used.est.get_robot_state_queue_ptr()->empty(), "queues", "published states survive a reset");
    bool e = used.ib.q->empty();
    for (auto& b : used.vb) e = e && b.q->empty();
    for (auto& b : used.lb) e = e && b.q->empty();
    m.check(e, "queues", "sensor data survives a reset");
    RobotState s = used.est.get_state(), z;
    m.check(s.get_X().cols() == 5 && s.get_X() == z.get_X() && s.get_P().cols() == 15 && s.get_P() == z.get_P() && s.get_theta() == z.get_theta() &&
                s.get_continuous_noise_covariance() == z.get_continuous_noise_covariance() && s.get_time() == z.get_time() &&
                s.get_propagate_time() == z.get_propagate_time() && s.get_body_angular_velocity() == z.get_body_angular_velocity(),
            "state", "the state after a reset is not that of a new estimator");
  }
  // continuation on the reset and on a new estimator; a finished bias estimate is kept by design
  Cfg fc = c;
  bool had_bias = used.est.BiasInitialized();
  Real fresh(fc);
  Feed fu(used, c, cont0);
  if (had_bias && c.imu.static_init.value()) m.count("continuations with a kept bias");
  Vec kept;
  if (had_bias && c.imu.static_init.value()) {
    Feed probe(used, c, cont0);
    probe.start();
    kept = used.est.get_state().get_theta();
    used.est.clear();
    fc.imu.static_init = false;
    fc.imu.bg = OV{{kept(0), kept(1), kept(2)}};
    fc.imu.ba = OV{{kept(3), kept(4), kept(5)}};
  }
  std::unique_ptr<Real> seeded;
  Real* ref = &fresh;
  if (kept.size()) {
    seeded.reset(new Real(fc));
    ref = seeded.get();
  }
  if (had_bias) ref->est.InitBias();   // takes the (kept) prior without consuming samples
  Feed fr(*ref, fc, cont0);
  auto compare = [&] {
    m.step();
    m.check(used.est.is_enabled() == ref->est.is_enabled(), "enabled", "enabled flag differs from a new estimator");
    m.check(used.est.BiasInitialized() == ref->est.BiasInitialized(), "bias", "bias flag differs from a new estimator");
    m.check(used.ib.q->size() == ref->ib.q->size(), "queues", "IMU queue differs from a new estimator");
    auto a = used.est.get_robot_state_queue_ptr(), b = ref->est.get_robot_state_queue_ptr();
    m.check(a->size() == b->size(), "published", mc::fmt("%d states published, a new estimator publishes %d", (int)a->size(), (int)b->size()));
    while (!a->empty()) {
      std::string e = same(*a->front(), *b->front());
      m.check(e.empty(), "published", "published state differs from that of a new estimator: " + e);
      a->pop();
      b->pop();
    }
    std::string e = same(used.est.get_state(), ref->est.get_state());
    m.check(e.empty(), "state", "estimate differs from that of a new estimator: " + e);
    m.state(hash_state(used.est.get_state()));
  };
  compare();
  int cont = m.choose(m.thorough ? 7 : 4, "continuation");
  fu.start();
  fr.start();
  compare();
  static const int script[7][6] = {{0, 0, 1, 2, 0, 3}, {1, 0, 0, 2, 3, 2}, {2, 0, 3, 0, 1, 4}, {5, 6, 6, 6, 6, 6}, {4, 0, 2, 2, 0, 3}, {3, 0, 2, 1, 0, 1}, {6, 1, 5, 6, 4, 0}};
  for (int i = 0; i < 6; i++) {
    fu.op(script[cont][i]);
    fr.op(script[cont][i]);
    compare();
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 5;
  o.what = "one history on a real estimator with one or two resets, followed by initialisation and a continuation that is also run on a newly created estimator; flags, queues, the cleared state and all published states compared; the same for the queues of a gyro filter, alone and as part of an estimator";
  o.bounds = "4 sensor sets (none, velocity, legs, both) x 3 configurations x from a new or running filter x all histories of 3 (4) operations out of 8 (one of them 150 arrivals of every sensor) before one reset, or split around two resets, x 4 (7) continuations of 7 operations; gyro filter: 4 correction sources x 2 propagations x 3 ways of set-up x cold/warm x all histories of 3 (4) operations out of 6 before a reset and one fewer before a second one; estimator with a gyro filter: 1-3 filtered samples waiting x 1-2 resets x running or not x legs or not";
  return o;
}
MC_MAIN(options)

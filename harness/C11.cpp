// C11: static bias initialisation.
#include "model.hpp"
using namespace model;

static const std::vector<V3> W = {V3(0.01, -0.02, 0.03), V3(0, 0, 0), V3(0.5, 0.4, -0.3)};
static const std::vector<V3> A = {V3(0.1, 0.2, 9.7), V3(-0.3, 0.1, 9.9), V3(2, -3, 8)};
static const std::vector<OV> Q = {OV{{1, 0, 0, 0}}, OV{{0.8, 0.6, 0, 0}}, OV{{0.5, 0.5, -0.5, 0.5}}};

static void program(mc::MC& m) {
  Cfg c;
  c.imu.static_init = !m.flag("no static initialisation");
  int win = m.choose(m.thorough ? 7 : 6, "window");
  bool lw = win == (m.thorough ? 6 : 5);    // as in practice: hundreds of samples
  if (lw) win = 300;
  c.imu.init_size = win;
  c.imu.bias_update = m.flag("bias update");
  if (m.flag("priors")) { c.imu.bg = OV{{0.3, -0.2, 0.1}}; c.imu.ba = OV{{-0.1, 0.4, 0.2}}; }
  int geo = m.choose(4, "geometry");
  if (geo == 1 || geo == 3) c.imu.rot = OV{{0.5, 0.5, -0.5, 0.5}};
  if (geo == 3) c.imu.trans = OV{{0.2, -0.1, 0.3}};
  if (geo == 2) c.imu.imu_ori = true;
  Pair p(c);
  double t = geo == 1 ? 1.7e9 : 4;
  int n = 0;
  // direct view of the propagation object, next to the estimator
  ImuBuf db;
  filter::inekf::ImuPropagation direct(db.q, db.m, filter::inekf::ErrorType::RightInvariant, c.imu.file());
  auto arrive = [&](int k) {
    t += 0.01;
    n++;
    ImuS s{t, W[k], A[k] + V3(0.01 * n, 0, 0), Q[k]};
    p.push(s);
    db.q->push(imu(s.t, s.w, s.a, s.q));
  };
  auto after = [&] {
    m.step();
    m.check(p.r.est.BiasInitialized() == p.m.bias_ready && direct.get_bias_initialized() == p.m.bias_ready, "flag",
            p.m.bias_ready ? "bias is not reported as initialised" : "bias is reported as initialised too early");
    std::string e = p.diff_queues();
    m.check(e.empty() && db.q->size() == p.m.iq.size(), "consumed", "wrong samples consumed: " + e);
    m.check(near(direct.get_estimate_gyro_bias(), p.m.bg0, 1e-9, 1e-11), "gyro-bias",
            mc::fmt("gyroscope bias [%s], expected [%s]", ms(direct.get_estimate_gyro_bias().transpose()).c_str(), ms(p.m.bg0.transpose()).c_str()));
    m.check(near(direct.get_estimate_accel_bias(), p.m.ba0, 1e-9, 1e-11), "accel-bias",
            mc::fmt("accelerometer bias [%s], expected [%s]", ms(direct.get_estimate_accel_bias().transpose()).c_str(), ms(p.m.ba0.transpose()).c_str()));
    m.check(!p.m.bias_ready || (direct.get_estimate_gyro_bias().allFinite() && direct.get_estimate_accel_bias().allFinite()), "finite", "bias is not finite");
  };
  after();
  if (lw) {
    bool burst = m.flag("all at once");
    int extra = m.choose(3, "samples that are left over");
    if (burst) for (int i = 0; i < win + extra; i++) arrive(i % 3);
    for (int i = 0; i < win + 2 && !p.m.bias_ready; i++) {
      if (!burst && i < win + extra) arrive(i % 3);
      p.init_bias();
      direct.InitImuBias();
      after();
    }
  }
  int depth = lw ? 1 : m.thorough ? 7 : 5;
  bool rich = geo == 0 || geo == 3;
  for (int i = 0; i < depth; i++) {
    int op = m.choose(rich ? 4 : 3, "op");
    if (op == 0) { p.init_bias(); direct.InitImuBias(); }
    else if (op == 1) arrive(m.thorough ? i % 3 : 0);
    else if (op == 2) { arrive(2); arrive(1); p.init_bias(); direct.InitImuBias(); }
    else { arrive(i % 3); p.init_bias(); direct.InitImuBias(); p.init_bias(); direct.InitImuBias(); }
    after();
  }
  for (int i = 0; i < 8 && !p.m.bias_ready; i++) {   // finish the window
    arrive(i % 3);
    p.init_bias();
    direct.InitImuBias();
    after();
  }
  m.check(p.m.bias_ready, "model", "reference did not finish");
  p.init_bias();                                     // asking again changes nothing
  direct.InitImuBias();
  after();
  arrive(0);
  p.init_state();
  std::string e = p.diff_published();
  m.check(e.empty(), "start", "the filter does not start from the initialised bias: " + e);
  Vec th = p.r.est.get_state().get_theta();
  for (int i = 0; i < 3; i++) {
    arrive(i);
    p.run_once();
    m.step();
    e = p.diff_published();
    m.check(e.empty(), "running", e);
    if (!c.imu.bias_update.value()) m.check(p.r.est.get_state().get_theta() == th, "frozen", "bias changed although its estimation is off");
    m.state(hash_state(p.r.est.get_state()));
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 6;
  o.what = "one interleaving of sample arrivals and bias-initialisation calls, then state initialisation and steps, on a real estimator and a bare propagation object; flag, queue, both biases and the start state compared with the reference after every call";
  o.bounds = "static on/off x window 0-4 (0-5) and 300, arriving one by one or at once x bias update x priors x 4 geometries (aligned, rotated, IMU orientation used, rotated with lever arm) x all sequences of 5 (7) operations out of 3-4";
  return o;
}
MC_MAIN(options)

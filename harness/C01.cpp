// C01: IMU prediction of the mean.  Exhaustive: configurations x states x rates x accelerations x time
// steps for one prediction, and all push/step histories up to a depth.
#include "model.hpp"
using namespace model;

static const std::vector<V3> W = {V3(0, 0, 0), V3(0.3, -0.2, 0.5), V3(0, 0, 4.0), V3(1e-3, 0, -2e-3), V3(1e-5, 2e-5, 0),
                                  V3(0, 1e-6, 0), V3(3e-7, 0, 3e-7), V3(1e-9, 0, -1e-9), V3(-7, 5, 3), V3(0.02, 0.01, -0.03), V3(4, -30, 25)};
static const std::vector<V3> A = {V3(0, 0, 9.8), V3(1.5, -2.0, 8.0), V3(0, 0, 0), V3(-30, 12, 45), V3(20, 400, -150)};
static const std::vector<double> DT = {0, 0.005, 0.1, 1e-6, 1.3, 12, 0.5, 1e-9};
static const std::vector<OV> ROT = {OV{}, OV{{0.5, 0.5, -0.5, 0.5}}, OV{{0.9, 0.3, -0.1, std::sqrt(1 - .81 - .09 - .01)}}};
static const std::vector<OV> TR = {OV{}, OV{{0.2, -0.1, 0.3}}};

static Belief start(int k) {
  Belief b;
  if (k) {
    b.R = ref::exp_so3(k == 1 ? V3(0.4, -1.1, 2.0) : V3(0, 3.1, 0));
    b.v = V3(1.2, -0.7, 0.3);
    b.p = V3(-3, 5, 0.8);
    b.bg = V3(0.01, -0.02, 0.03);
    b.ba = V3(0.1, 0.2, -0.15);
  }
  if (k == 2) {
    b.d = {V3(1, 2, 3), V3(-0.3, 0.2, -0.5)};
    b.dnoise = {0.01 * M3::Identity(), 0.02 * M3::Identity()};
  }
  b.P = 0.01 * Mat::Identity(b.dim(), b.dim());
  return b;
}

static void program(mc::MC& m) {
  Cfg c;
  int mode = m.choose(2, "mode");
  if (mode == 0) {
    c.imu.rot = ROT[m.choose(ROT.size(), "mounting")];
    c.imu.trans = TR[m.choose(TR.size(), "lever arm")];
    c.left = m.flag("left-invariant");
    c.imu.bias_update = m.flag("bias update");
    int k = m.choose(3, "start");
    V3 w = W[m.choose(W.size(), "rate")], a = A[m.choose(A.size(), "acceleration")];
    double dt = DT[m.choose(m.thorough ? DT.size() : 6, "dt")];
    double t0 = k == 1 ? 100.25 : 0.5;
    Pair p(c);
    p.push(ImuS{t0 - 7, V3(0.1, 0.2, 0.3), V3(1, 2, 3), {}});
    p.init_state();
    p.diff_published();
    p.set_belief(start(k), t0);
    // the sample to be integrated is the second one: feed it, consume the first one with dt = 0, then go
    Belief b0 = start(k);
    V3 wb = quatR(c.imu.rot).transpose() * (w + b0.bg);   // so that the corrected rate hits the alphabet exactly
    p.m.tp = p.m.t = p.m.prev->t;
    RobotState s = to_state(b0, c.imu.bias_update.value(), p.m.tp);
    p.r.est.set_state(s);
    p.push(ImuS{t0 + dt, wb, a, {}});
    p.run_once();
    p.diff_published();
    p.set_belief(b0, t0);
    if (k) {       // another sensor has moved the time stamp of the state, not the time it was predicted to
      p.m.t = t0 + (k == 1 ? 0.04 : -0.03);
      RobotState moved = to_state(b0, c.imu.bias_update.value(), t0);
      moved.set_time(p.m.t);
      p.r.est.set_state(moved);
    }
    p.push(ImuS{t0 + dt + 1, V3(9, 9, 9), V3(9, 9, 9), {}});
    p.run_once();
    m.step(2);
    std::string e = p.diff_queues();
    m.check(e.empty(), "queue", e);
    RobotState g = p.r.est.get_state();
    Belief gb = from_state(g);
    e = diff_structure(g);
    m.check(e.empty(), "structure", e);
    e = diff_mean(gb, p.m.b, 1e-9);
    m.check(e.empty(), mc::fmt("mean"), mc::fmt("rate %s accel %s dt %g: ", ms(w.transpose()).c_str(), ms(a.transpose()).c_str(), dt) + e);
    m.check(same_time(g.get_time(), t0 + dt) && same_time(g.get_propagate_time(), t0 + dt), "time",
            mc::fmt("time %.9g propagate time %.9g, expected %.9g", g.get_time(), g.get_propagate_time(), t0 + dt));
    auto q = p.r.est.get_robot_state_queue_ptr();
    m.check(q->size() == 1, "published", "a prediction must publish exactly one state");
    m.check(hash_state(*q->front()) == hash_state(g), "published-value", "published state differs from the estimate");
    m.state(hash_state(g));
    m.validated();
    return;
  }
  // histories: arrivals of samples interleaved with steps
  int cfg = m.choose(3, "configuration");
  c.left = cfg == 1;
  c.imu.bias_update = cfg != 2;
  c.imu.rot = ROT[cfg];
  c.imu.trans = TR[cfg ? 1 : 0];
  c.imu.bg = OV{{0.01, 0.02, -0.03}};
  c.imu.ba = OV{{0.05, -0.1, 0.2}};
  Pair p(c);
  if (m.flag("step before initialisation")) {
    // nothing may be integrated before the filter knows its start
    p.run_once();
    m.check(p.r.est.get_robot_state_queue_ptr()->empty(), "premature", "a step before any sample published a state");
  }
  double t = c.left ? 10 : 1.7e9;
  p.push(ImuS{t, V3(0.2, 0.1, -0.4), V3(0.5, 0.6, 9.0), {}});
  p.init_state();
  m.step();
  std::string e = p.diff_published();
  m.check(e.empty(), "init", e);
  if (m.flag("many samples waiting")) {
    int n = (m.thorough ? 1500 : 300) + m.choose(2, "odd"), every = 1 + m.choose(3, "steps in between");
    for (int i = 0; i < n; i++) {
      t += 0.004;
      p.push(ImuS{t, V3(0.3 * std::sin(i), 0.2, -0.1 * std::cos(2 * i)), V3(0.4, 0.1 * std::sin(i), 9.8), {}});
      if (i % 7 < every - 1) p.run_once();
    }
    for (int i = 0; i < n + 2; i++) {
      p.run_once();
      m.step();
      e = p.diff_queues();
      m.check(e.empty(), "queue", e);
      if (i % 16 == 0 || i >= n) {     // published states wait in their queue as well
        e = p.diff_published();
        m.check(e.empty(), "history", e);
      }
    }
    m.validated();
    return;
  }
  int depth = m.thorough ? 8 : 6;
  for (int i = 0; i < depth; i++) {
    int op = m.choose(i % 2 ? 6 : 5, "op");
    if (op == 0) { p.run_once(); m.note("RunOnce"); }
    else if (op == 5) {                 // as a correction does
      RobotState moved = p.r.est.get_state();
      p.m.t += i % 2 ? 0.013 : -0.02;
      moved.set_time(p.m.t);
      p.r.est.set_state(moved);
      m.note("another sensor moves the time stamp of the state");
    } else {
      static const double D[] = {0.01, 0.25, 0.0, 0.05};
      t += D[op - 1];
      ImuS s{t, V3(0.7 * op - 1.5 + 0.1 * i, 0.3 * i, -0.2 * op), V3(0.4 * i, -1.0 * op, 9.8 - 0.3 * i), {}};
      p.push(s);
      m.note(mc::fmt("IMU sample at %.3f", t));
    }
    m.step();
    e = p.diff_queues();
    m.check(e.empty(), "queue", e);
    e = p.diff_published();
    m.check(e.empty(), "history", e);
    e = p.diff_estimate();
    m.check(e.empty(), "history", e);
    m.state(hash_state(p.r.est.get_state()));
  }
  m.validated();
}

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 3;
  o.what = "one configuration, start state and sample integrated by the real estimator, or one history of sample arrivals and filter steps; mean, times, queue and published state compared with generic-matrix-exponential reference after every step";
  o.bounds = "single prediction: 3 mountings x 2 lever arms x 2 error types x 2 bias modes x 3 start states x 11 rates (0..39 rad/s, 1e-9..) x 5 accelerations (up to 430 m/s2) x 6 (8) time steps (0..12 s); histories: 3 configurations, all sequences of 6 (thorough 8) operations over {step, 4 sample arrivals, at every other place also the state's time stamp moved by another sensor}; 300 (1500) samples waiting at once";
  return o;
}
MC_MAIN(options)

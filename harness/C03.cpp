// C03: the velocity update is the exact invariant Kalman update.
#include "model.hpp"
using namespace model;

static Belief start(int pose, int ncon, int cov) {
  Belief b;
  if (pose == 1) {
    b.R = ref::exp_so3(V3(0.4, -1.1, 2.0));
    b.v = V3(1.2, -0.7, 0.3);
    b.p = V3(-3, 5, 0.8);
    b.bg = V3(0.01, -0.02, 0.03);
    b.ba = V3(0.1, 0.2, -0.15);
  } else if (pose == 2) {
    b.R = ref::exp_so3(V3(-2.0, 2.2, 0.3));
    b.v = V3(-4, 0.1, 9);
    b.p = V3(300, -250, 40);
  }
  for (int i = 0; i < ncon; i++) {
    b.d.push_back(b.p + V3(0.3 * i - 1, 0.4 - 0.2 * i, -0.3));
    M3 n;
    n << 0.02, 0.003, -0.001, 0.003, 0.03, 0.002, -0.001, 0.002, 0.01;
    b.dnoise.push_back((1 + 0.5 * i) * n);
  }
  if (cov == 0) b.P = 0.01 * Mat::Identity(b.dim(), b.dim());
  if (cov == 1) b.P = full_cov(b.dim(), 0.05);
  if (cov == 2) b.P = full_cov(b.dim(), 3.0, 5);
  if (cov == 3) { b.P = full_cov(b.dim(), 1e-5, 2); b.P.block(3, 3, 3, 3) += 0.4 * M3::Identity(); }
  return b;
}

// the general update functions, with observations of several rows
static void general(mc::MC& m) {
  bool leftobs = m.flag("left-invariant observation"), left = m.flag("left-invariant error"), bias = m.flag("bias update");
  int ncon = m.choose(5, "contacts"), cov = m.choose(4, "covariance"), pose = m.choose(3, "pose"), hk = m.choose(4, "observation");
  Belief b = start(pose, ncon, cov);
  int D = b.dim(), rows = hk == 3 ? 5 : 3;
  Mat H = Mat::Zero(rows, D), N = 0.02 * Mat::Identity(rows, rows);
  N(0, 1) = N(1, 0) = 0.007;
  Vec z = Vec::Zero(rows);
  for (int i = 0; i < rows; i++) z(i) = 0.3 * std::sin(2.0 * i + 1);
  if (hk == 0) H.block(0, 6, 3, 3).setIdentity();
  if (hk == 1) { H.block(0, 0, 3, 3) = ref::hat(V3(0.2, 0.5, -1)); H.block(0, 3, 3, 3).setIdentity(); }
  if (hk == 2) { H.block(0, b.n(), 3, 3) = 0.5 * M3::Identity(); H.block(0, b.n() - 3, 3, 3).setIdentity(); z *= 0.1; }
  if (hk == 3) for (int i = 0; i < rows; i++) for (int j = 0; j < D; j++) H(i, j) = std::cos(1.0 * i + 0.37 * j * (i + 1));
  RobotState s = to_state(b, bias, 2.5);
  auto et = left ? ErrorType::LeftInvariant : ErrorType::RightInvariant;
  if (leftobs) { filter::inekf::CorrectLeftInvariant(z, H, N, s, et); ref::correct_left(b, z, H, N, bias, left); }
  else { filter::inekf::CorrectRightInvariant(z, H, N, s, et); ref::correct_right(b, z, H, N, bias, left); }
  m.step();
  std::string e = diff_structure(s);
  m.check(e.empty(), "general-update", e);
  Belief g = from_state(s);
  e = diff_mean(g, b, 1e-7);
  m.check(e.empty(), "general-update", e);
  e = diffP(g.P, b.P, 1e-6, false);
  m.check(e.empty(), "general-update", e);
  m.check(s.get_time() == 2.5 && s.get_propagate_time() == 2.5, "general-update", "time stamps changed");
  m.state(hash_state(s));
  m.validated();
}

static void program(mc::MC& m) {
  Cfg c;
  if (m.flag("general update function")) return general(m);
  c.left = m.flag("left-invariant");
  c.imu.bias_update = m.flag("bias update");
  Cfg::Corr k;
  k.legs = false;
  int mode = m.choose(2, "mode");
  int mount = m.choose(m.thorough ? 4 : 3, "mounting");
  if (mount == 1) k.v.rot = OV{{0.5, 0.5, -0.5, 0.5}};
  if (mount == 2) k.v.rot = OV{{std::cos(0.4), 0, std::sin(0.4) * 0.6, std::sin(0.4) * 0.8}};
  if (mount == 3) k.v.rot = OV{{0, 0, 0, 1}};
  int sc = m.choose(3, "scale");
  if (sc == 1) k.v.scale = 0.8;
  if (sc == 2) k.v.scale = -1.5;
  int st = m.choose(m.thorough ? 4 : 3, "noise");
  k.v.std = std::vector<double>{0.1, 1.7, 0.004, 30}[st];
  c.corr.push_back(k);
  double t0 = 7;
  int ncon = m.choose(mode == 0 ? 4 : 2, "contacts");
  int cov = mode == 0 ? m.choose(4, "covariance") : 1;
  int pose = mode == 0 ? m.choose(3, "pose") : 1;
  Belief b = start(pose, ncon, cov);
  Pair p(c);
  p.tol_cov = 1e-6;
  p.push(0, VelS{t0, V3(0, 0, 0)});
  p.push(ImuS{t0, V3(0.1, 0.2, -0.3), V3(0.3, 0.1, 9.7), {}});
  p.init_state();
  p.diff_published();
  p.set_belief(b, t0);
  M3 Rs = quatR(k.v.rot);
  double s = k.v.scale.value_or(1.0);
  auto meas = [&](int kind) -> V3 {
    V3 agree = Rs.transpose() * (p.m.b.R.transpose() * p.m.b.v) / s;   // what the sensor would read now
    switch (kind) {
      case 0: return agree;
      case 1: return agree + V3(0.4, -0.3, 0.2);
      case 2: return V3(5, -7, 2);
      case 3: return V3(0, 0, 0);
      case 4: return agree + V3(1e-5, 2e-5, -3e-5);
      default: return V3(-60, 25, 44);
    }
  };
  auto step = [&](int kind, double t) {
    V3 y = meas(kind);
    Mat before = p.m.b.P;
    M3 R0 = p.m.b.R;
    V3 v0 = p.m.b.v;
    p.push(0, VelS{t, y});
    p.run_once();
    m.step();
    std::string e = p.diff_published();
    std::string w = mc::fmt("measurement [%s]: ", ms(y.transpose()).c_str());
    m.check(e.empty(), "update", w + e);
    e = p.diff_estimate();
    m.check(e.empty(), "update", w + e);
    e = p.diff_queues();
    m.check(e.empty(), "queue", w + e);
    Belief g = from_state(p.r.est.get_state());
    if (kind == 0 && s != 0) {
      m.check(near(g.R, R0, 1e-9, 1e-9) && near(g.v, v0, 1e-9, 1e-9), "agreeing", w + "an agreeing measurement moved the mean");
      // only the velocity marginal may shrink (in the correction's own, world frame)
      if (!c.left) {
        M3 d = before.block(3, 3, 3, 3) - g.P.block(3, 3, 3, 3);
        Eigen::SelfAdjointEigenSolver<M3> es(0.5 * (d + d.transpose()));
        m.check(es.eigenvalues().minCoeff() > -1e-9 * before.block(3, 3, 3, 3).trace(), "agreeing", "velocity uncertainty grew");
      }
    }
    m.state(hash_state(p.r.est.get_state()));
  };
  if (mode == 0) {
    step(m.choose(6, "measurement"), t0 - 0.05);
  } else {
    double t = t0;
    int depth = m.thorough ? 5 : 3;
    p.push(ImuS{t, V3(0.1, 0.2, -0.3), V3(0.3, 0.1, 9.7), {}});
    p.run_once();
    p.diff_published();
    for (int i = 0; i < depth; i++) {
      int op = m.choose(4, "op");
      if (op == 3) {   // predict
        t += 0.02;
        p.push(ImuS{t, V3(0.4, -0.2, 0.9) + p.m.b.bg, V3(1, -2, 9) + p.m.b.ba, {}});
        p.run_once();
        m.step();
        std::string e = p.diff_published();
        m.check(e.empty(), "sequence", e);
      } else step(op, p.m.tp - 0.01 + 0.002 * i);
    }
  }
  m.validated();
}

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 6;
  o.what = "one velocity update (or a sequence of updates and predictions) by the real estimator from a chosen belief and configuration; published state, mean and full covariance compared with a textbook invariant Kalman update";
  o.bounds = "2 error types x 2 bias modes x 3 (4) mountings x 3 scales x 3 (4) noises x [0-3 contacts x 4 covariances x 3 poses x 6 measurements] plus [0-1 contacts x all sequences of 3 (5) steps over 3 measurement kinds and prediction]; general update functions: 2 observation kinds x 2 error types x 2 bias modes x 0-4 contacts x 4 covariances x 3 poses x 4 observation matrices (up to 5 rows)";
  return o;
}
MC_MAIN(options)

// C02: IMU prediction of the covariance.
#include "model.hpp"
using namespace model;

static const std::vector<V3> W = {V3(0, 0, 0), V3(0.3, -0.2, 0.5), V3(0, 0, 4.0), V3(1e-3, 0, -2e-3), V3(1e-5, 2e-5, 0), V3(5e-7, 0, 0),
                                  V3(0, 3e-6, 0), V3(1e-9, 0, -1e-9), V3(-7, 5, 3), V3(1e-7, 0, 3e-7), V3(2e-4, 0, -1e-4), V3(0.02, 0.01, -0.03)};
static const std::vector<V3> A = {V3(0, 0, 9.8), V3(1.5, -2.0, 8.0), V3(-30, 12, 45)};
static const std::vector<double> DT = {0, 0.005, 0.1, 1.3, 12, 0.5, 1e-6};

static Belief start(int ncontacts, int cov, int pose) {
  Belief b;
  if (pose) {
    b.R = ref::exp_so3(V3(0.4, -1.1, 2.0));
    b.v = V3(1.2, -0.7, 0.3);
    b.p = V3(-3, 5, 0.8);
    b.bg = V3(0.01, -0.02, 0.03);
    b.ba = V3(0.1, 0.2, -0.15);
  }
  for (int i = 0; i < ncontacts; i++) {
    b.d.push_back(V3(0.3 * i - 1, 0.4 - 0.2 * i, -0.3));
    M3 n;
    n << 0.02, 0.003, -0.001, 0.003, 0.03, 0.002, -0.001, 0.002, 0.01;
    b.dnoise.push_back((1 + 0.5 * i) * n);
  }
  if (cov == 0) b.P = 0.01 * Mat::Identity(b.dim(), b.dim());
  if (cov == 1) b.P = full_cov(b.dim(), 0.05);
  if (cov == 2) b.P = Mat::Zero(b.dim(), b.dim());   // the step's own contribution alone
  return b;
}

static void program(mc::MC& m) {
  Cfg c;
  c.left = m.flag("left-invariant");
  c.imu.bias_update = m.flag("bias update");
  int mode = m.choose(2, "mode");
  int ncon = m.choose(5, "contacts");
  int cov = m.choose(3, "covariance");
  if (mode == 0) {
    int pose = m.choose(2, "pose");
    if (m.flag("mounted")) {
      c.imu.rot = OV{{0.5, 0.5, -0.5, 0.5}};
      c.imu.trans = OV{{0.2, -0.1, 0.3}};
    }
    if (m.thorough && m.flag("large noise")) c.imu.gyro_std = 0.4, c.imu.acc_std = 0.9, c.imu.gyro_bias_std = 0.2, c.imu.acc_bias_std = 0.3;
    V3 w = W[m.choose(12, "rate")], a = A[m.choose(m.thorough ? 3 : 2, "acceleration")];
    double dt = DT[m.choose(m.thorough ? 7 : 5, "dt")];
    Pair p(c);
    p.tol_cov = 2e-7;
    double t0 = 3;
    Belief b = start(ncon, cov, pose);
    V3 wb = quatR(c.imu.rot).transpose() * (w + b.bg);
    p.push(ImuS{t0 + dt, wb, a, {}});
    p.init_state();
    p.diff_published();
    p.set_belief(b, t0);
    p.push(ImuS{t0 + dt + 1, V3(9, 9, 9), V3(9, 9, 9), {}});
    p.run_once();
    m.step();
    std::string e = p.diff_published();
    m.check(e.empty(), "covariance", mc::fmt("rate [%s] accel [%s] dt %g: ", ms(w.transpose()).c_str(), ms(a.transpose()).c_str(), dt) + e);
    e = p.diff_estimate();
    m.check(e.empty(), "covariance", e);
    m.state(hash_state(p.r.est.get_state()));
    m.validated();
    return;
  }
  // sequences of predictions, every sample from a small alphabet
  Pair p(c);
  Belief b = start(ncon, cov, 1);
  double t = 5;
  static const double D[] = {0.01, 0.2, 0.0};
  p.push(ImuS{t, V3(0.1, 0.2, -0.3), V3(0.3, 0.1, 9.7), {}});
  p.init_state();
  p.diff_published();
  p.set_belief(b, t);
  int depth = m.thorough ? 6 : 4;
  for (int i = 0; i < depth; i++) {
    int k = m.choose(3, "sample");
    t += D[k];
    V3 w = k == 0 ? V3(0, 0, 0) : k == 1 ? V3(0.5, -0.8, 1.1 + i) : V3(1e-6, 0, 0);
    p.push(ImuS{t, w + p.m.b.bg, V3(0.5 * k, -0.4 * i, 9.8), {}});
    p.run_once();
    m.step();
    std::string e = p.diff_published();
    m.check(e.empty(), "sequence", e);
    m.state(hash_state(p.r.est.get_state()));
  }
  m.validated();
}

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one prediction (or a sequence of predictions) by the real estimator from a chosen belief, configuration and sample; mean, full covariance and process noise compared block by block with the matrix exponential of the error dynamics";
  o.bounds = "2 error types x 2 bias modes x 0-4 contacts x 3 prior covariances (diagonal, fully correlated, zero) x 2 poses x 2 mountings x 12 rates x 2 (3) accelerations x 5 (7) time steps (0..12 s) x (thorough: 2 noise sets); sequences: all of length 4 (6) over 3 sample kinds";
  return o;
}
MC_MAIN(options)

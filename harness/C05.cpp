// C05: tracked contact points under every history of contact patterns.
#include "model.hpp"
using namespace model;

static LegS sample(double t, const std::vector<bool>& c, int i) {
  LegS s;
  s.t = t;
  s.c = c;
  for (size_t l = 0; l < c.size(); l++) {
    s.pos.push_back(V3(l % 2 ? 0.3 : -0.28, l < 2 ? 0.2 : -0.23, -0.4) + 0.03 * V3(std::sin(1.0 * i + l), std::cos(2.0 * i + l), std::sin(3.0 * i * l)));
    M3 J;
    J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15;
    J(0, 0) += 0.1 * l;
    J(2, 1) -= 0.07 * i;
    s.J.push_back(J);
  }
  return s;
}

static void program(mc::MC& m) {
  Cfg c;
  int mode = m.choose(3, "mode");
  c.left = m.flag("left-invariant");
  c.imu.bias_update = m.flag("bias update");
  Cfg::Corr k;
  k.legs = true;
  int nl = mode == 2 ? m.choose(6, "legs") + 1 : 4;
  if (mode != 1) { k.l.enc_std = 0.2; k.l.add_std = 0.03; k.l.contact_std = 0.4; }
  c.corr.push_back(k);
  Pair p(c);
  double t = c.left ? 1.7e9 : 3;
  p.push(0, sample(t, std::vector<bool>(nl, false), 0));
  p.push(ImuS{t, V3(0.2, -0.4, 0.6), V3(0.5, -0.8, 9.5), {}});
  p.init_state();
  std::string e = p.diff_published();
  m.check(e.empty(), "initial", e);
  Belief b = p.m.b;
  b.R = ref::exp_so3(V3(0.3, -0.5, 1.2));
  b.v = V3(0.5, -0.3, 0.1);
  b.p = V3(2, -1, 0.4);
  b.P = full_cov(15, 0.02);
  p.set_belief(b, t);
  auto predict = [&] {
    t += 0.02;
    p.push(ImuS{t, V3(0.7, -0.4, 0.6), V3(0.5, -0.8, 9.5), {}});
    p.run_once();
    m.step();
    std::string e = p.diff_published();
    m.check(e.empty(), "prediction", e);
  };
  predict();
  auto contact = [&](const std::vector<bool>& c, int i) {
    p.push(0, sample(p.m.tp + 0.001 * i, c, i));
    p.run_once();
    m.step();
    std::string e = p.diff_published();
    m.check(e.empty(), "contact", e);
    RobotState s = p.r.est.get_state();
    int n = 0;
    for (bool x : c) n += x;
    m.check(s.dimX() == 5 + n && s.dimP() == 15 + 3 * n, "dimension", mc::fmt("%d legs in contact but the state has %d columns", n, s.dimX()));
    e = p.diff_estimate();
    m.check(e.empty(), "contact", e);
    e = diff_psd(s.get_P(), 1e-8);
    m.check(e.empty(), "covariance", e);
    m.state(hash_state(s));
    m.count(mc::fmt("steps ending with %d contacts", n));
  };
  std::vector<bool> cur(nl, false);
  if (mode == 0) {            // all sequences of contact patterns of a quadruped
    int depth = m.thorough ? 4 : 3;
    for (int i = 0; i < depth; i++) {
      int pat = m.choose(16, "pattern");
      for (int l = 0; l < 4; l++) cur[l] = pat >> l & 1;
      contact(cur, i + 1);
      if (i % 2 == 0) predict();
    }
  } else if (mode == 1) {     // all orders of single touch-downs and lift-offs
    int depth = m.thorough ? 8 : 6;
    for (int i = 0; i < depth; i++) {
      int l = m.choose(5, "toggle");
      if (l < 4) cur[l] = !cur[l];
      contact(cur, i + 1);
      if (l == 4) predict();
    }
  } else {                    // other numbers of legs: all on, then every subset off, then every subset on
    contact(std::vector<bool>(nl, true), 1);
    predict();
    int a = m.choose(1 << nl, "subset off");
    for (int l = 0; l < nl; l++) cur[l] = a >> l & 1;
    contact(cur, 2);
    predict();
    int b = m.choose(1 << nl, "subset on");
    for (int l = 0; l < nl; l++) cur[l] = b >> l & 1;
    contact(cur, 3);
    predict();
    contact(cur, 4);
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history of leg-kinematics measurements and predictions on the real estimator; after every step the contact points, their attribution, mean, covariance and process noise are compared with the reference estimator";
  o.bounds = "2 error types x 2 bias modes x {all sequences of 3 (4) of the 16 contact patterns of 4 legs; all sequences of 6 (8) single-leg toggles/predictions; robots with 1-6 legs: every pair of subsets after all legs touched down}";
  return o;
}
MC_MAIN(options)

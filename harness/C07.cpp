// C07: the same history on a left- and on a right-invariant filter.
#include "model.hpp"
using namespace model;

static std::string compare(const RobotState& l, const RobotState& r, bool bias) {
  Belief bl = from_state(l), br = from_state(r);
  std::string e = diff_mean(bl, br, 1e-7);
  if (!e.empty()) return e;
  if (!same_time(l.get_time(), r.get_time()) || !same_time(l.get_propagate_time(), r.get_propagate_time())) return "times differ";
  Mat mapped = br.Ad() * bl.P * br.Ad().transpose();
  e = diffP(mapped, br.P, 1e-5, !bias);
  if (!e.empty()) return "mapped " + e;
  for (size_t i = 0; i < bl.dnoise.size(); i++)
    if (!near(bl.dnoise[i], br.dnoise[i])) return "contact noise differs";
  return "";
}

static void program(mc::MC& m) {
  Cfg c;
  c.imu.bias_update = m.flag("bias update");
  int cfg = m.choose(3, "sensors");
  Cfg::Corr v, g;
  v.legs = false;
  v.v.rot = OV{{0.5, 0.5, -0.5, 0.5}};
  g.legs = true;
  if (cfg != 1) c.corr.push_back(v);
  if (cfg != 0) c.corr.push_back(g);
  if (cfg == 2) { c.imu.rot = OV{{0.8, 0, 0, 0.6}}; c.imu.trans = OV{{0.2, -0.1, 0.3}}; }
  Cfg cl = c, cr = c;
  cl.left = true;
  cr.left = false;
  Pair L(cl), R(cr);
  double t = cfg == 1 ? 1.7e9 : 3;
  auto leg = [&](double t, int pat, int i) {
    LegS s;
    s.t = t;
    for (int l = 0; l < 3; l++) {
      s.c.push_back(pat >> l & 1);
      s.pos.push_back(V3(l == 1 ? 0.3 : -0.28, 0.2 - 0.3 * l, -0.4) + 0.04 * V3(std::sin(1.0 * i + l), std::cos(2.0 * i + l), std::sin(3.0 * i * l)));
      M3 J;
      J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15 + 0.1 * l;
      s.J.push_back(J);
    }
    return s;
  };
  for (Pair* p : {&L, &R}) {
    for (size_t k = 0; k < c.corr.size(); k++)
      if (c.corr[k].legs) p->push(k, leg(t, 0, 0)); else p->push(k, VelS{t, V3(0.5, 0.2, -0.1)});
    p->push(ImuS{t, V3(0.2, -0.4, 0.6), V3(0.5, -0.8, 9.5), {}});
    p->r.est.InitState();
    p->m.init_state();
    Belief b = p->m.b;
    b.R = ref::exp_so3(V3(0.3, -0.5, 1.2));
    b.v = V3(0.5, -0.3, 0.1);
    b.p = V3(2, -1, 0.4);
    b.P = full_cov(15, 0.02);
    if (p == &L) b.P = (b.AdInv() * b.P * b.AdInv().transpose()).eval();   // the same belief
    p->set_belief(b, t);
    auto q = p->r.est.get_robot_state_queue_ptr();
    while (!q->empty()) q->pop();
  }
  size_t vk = 0, lk = cfg == 2 ? 1 : 0;
  int depth = m.thorough ? 6 : 4;
  for (int i = 0; i < depth; i++) {
    int nv = cfg != 1 ? 2 : 0, nl = cfg != 0 ? 8 : 0;
    int op = m.choose(2 + nv + nl, "op");
    if (m.thorough && nl && op >= 2 + nv + 4 && i >= 4) break;   // keeps the thorough run to 4 patterns in its last steps
    if (op < 2) t += op == 0 ? 0.02 : 0.5;
    for (Pair* p : {&L, &R}) {
      double tp = p->r.est.get_state().get_propagate_time();
      if (op == 0) p->push(ImuS{t, V3(0.7, -0.4, 0.6), V3(0.5, -0.8, 9.5), {}});
      else if (op == 1) p->push(ImuS{t, V3(0, 0, 0), V3(0.2 * i, 0, 9.8), {}});
      else if (op < 2 + nv) p->push(vk, VelS{tp - 0.01, op == 2 ? V3(0.7, -0.3, 0.2) : V3(-3, 2, 1.5)});
      else p->push(lk, leg(tp - 0.001, op - 2 - nv, i + 1));
      p->r.est.RunOnce();
    }
    m.step();
    auto ql = L.r.est.get_robot_state_queue_ptr(), qr = R.r.est.get_robot_state_queue_ptr();
    m.check(ql->size() == qr->size(), "published", "different numbers of published states");
    while (!ql->empty()) {
      std::string e = compare(*ql->front(), *qr->front(), *c.imu.bias_update);
      m.check(e.empty(), "published", e);
      ql->pop();
      qr->pop();
    }
    std::string e = compare(L.r.est.get_state(), R.r.est.get_state(), *c.imu.bias_update);
    m.check(e.empty(), "estimate", e);
    m.state(hash_state(L.r.est.get_state()));
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history run on two real estimators, one per error convention, from the same belief; every published state compared (covariance through the adjoint)";
  o.bounds = "2 bias modes x 3 sensor sets x all sequences of 4 (6; contact patterns 4-7 only in the first four steps) operations out of 4/10/12 (2 predictions, 2 velocity measurements, 8 contact patterns of 3 legs)";
  return o;
}
MC_MAIN(options)

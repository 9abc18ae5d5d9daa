// C12: independence of world and sensor frames, by comparing two runs of the real estimator.
#include "model.hpp"
using namespace model;

static const std::vector<V3> W = {V3(0.7, -0.4, 0.6), V3(0, 0, 0), V3(-2, 3, 1)};
static const std::vector<V3> A = {V3(0.5, -0.8, 9.5), V3(0.1, 0.2, 9.8), V3(-6, 3, 20)};
static const std::vector<V3> V = {V3(0.7, -0.3, 0.2), V3(-3, 2, 1.5)};
static const std::vector<OV> Q = {OV{{0.5, 0.5, -0.5, 0.5}}, OV{{0.8, 0, 0, 0.6}}, OV{{0, 1, 0, 0}}, OV{{0.9, 0.3, -0.1, std::sqrt(1 - .81 - .09 - .01)}}};

static LegS leg(double t, int pat, int i) {
  LegS s;
  s.t = t;
  for (int l = 0; l < 3; l++) {
    s.c.push_back(pat >> l & 1);
    s.pos.push_back(V3(l == 1 ? 0.3 : -0.28, 0.2 - 0.3 * l, -0.4) + 0.04 * V3(std::sin(1.0 * i + l), std::cos(2.0 * i + l), std::sin(3.0 * i * l)));
    M3 J;
    J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15 + 0.1 * l;
    s.J.push_back(J);
  }
  s.iv = V3(0.2, 0.1, -0.05);
  s.ig = V3(0.3, -0.1, 0.2);
  return s;
}

static void program(mc::MC& m) {
  // 0 world turn/shift, 1 IMU rotation, 2 IMU lever arm, 3 velocity sensor rotation/scale, 4 everything mounted,
  // 5 heading of the orientation the filter starts from
  int kind = m.choose(6, "kind");
  Cfg a;
  a.left = m.flag("left-invariant");
  a.imu.bias_update = kind == 2 || kind == 4 ? false : m.flag("bias update");
  a.imu.bg = OV{{0.01, -0.02, 0.03}};
  a.imu.ba = OV{{0.1, 0.2, -0.15}};
  a.imu.static_init = kind == 1 && m.flag("static bias initialisation");
  a.imu.init_size = 2;
  Cfg::Corr v, g;
  v.legs = false;
  g.legs = true;
  a.imu.imu_ori = kind == 5 || kind == 3;     // 3: the initial velocity too is turned by orientation and mounting
  int vi = kind == 3 || kind == 4 || (kind == 5 && m.flag("velocity sensor last")) ? 1 : 0, gi = 1 - vi;   // the last correction decides the initial velocity
  if (vi == 0) a.corr = {v, g}; else a.corr = {g, v};
  Cfg b = a;
  M3 Rw = M3::Identity();
  V3 sw = V3::Zero();
  M3 Qi = M3::Identity(), Qv = M3::Identity();
  V3 lever = V3::Zero();
  double scale = 1;
  int var = m.choose(4, "variant");
  if (kind == 0) {
    static const double yaw[] = {1.1, -2.9, M_PI, 0};
    Rw = ref::exp_so3(V3(0, 0, yaw[var]));
    sw = var == 1 ? V3(0, 0, 0) : V3(20, -35, 7);
  }
  Eigen::Quaterniond qa(1, 0, 0, 0), qb(1, 0, 0, 0);
  if (kind == 5) {
    static const double yaw[] = {1.1, -2.9, M_PI, 0.3};
    Rw = ref::exp_so3(V3(0, 0, yaw[var]));
    qa = Eigen::Quaterniond(quatR(Q[var]));
    qb = Eigen::Quaterniond(Rw) * qa;
    qb.normalize();
  }
  if (kind == 3) qa = qb = Eigen::Quaterniond(quatR(Q[var]));
  auto ov = [&](const Eigen::Quaterniond& q) { return kind == 5 || kind == 3 ? OV{{q.w(), q.x(), q.y(), q.z()}} : OV{}; };
  if (kind == 1 || kind == 4) { b.imu.rot = Q[var]; Qi = quatR(Q[var]); }
  if (kind == 2 || kind == 4) { lever = var % 2 ? V3(0.2, -0.1, 0.3) : V3(-1.5, 0.7, 0.4); b.imu.trans = OV{{lever(0), lever(1), lever(2)}}; }
  if (kind == 3 || kind == 4) {
    Qv = quatR(Q[(var + 1) % 4]);
    b.corr[vi].v.rot = Q[(var + 1) % 4];
    if (var != 2) { scale = var == 0 ? 0.8 : var == 1 ? 1.5 : -2; b.corr[vi].v.scale = scale; }
  }
  Real ra(a), rb(b);
  V3 bg = v3(a.imu.bg);
  double t = var == 1 ? 1.7e9 : 3;
  int n = 0;
  auto push_imu = [&](int k) {
    V3 w = W[k] + V3(0.01 * n, 0, 0), acc = A[k];
    n++;
    ra.ib.q->push(imu(t, w, acc, ov(qa)));
    V3 wc = w - bg;                                        // what the lever arm adds, as the filter models it
    V3 accb = acc + wc.cross(wc.cross(lever));
    rb.ib.q->push(imu(t, Qi.transpose() * w, Qi.transpose() * accb, ov(qb)));
  };
  auto push_vel = [&](double ts, int k) {
    ra.vb[vi].q->push(vel(ts, V[k]));
    rb.vb[vi].q->push(vel(ts, Qv.transpose() * V[k] / scale));
  };
  auto push_leg = [&](double ts, int pat, int i) {
    for (Real* r : {&ra, &rb}) {
      LegS s = leg(ts, pat, i);
      r->lb[gi].q->push(std::make_shared<TestLegs>(s.t, s.c, s.pos, s.J, s.iv, s.ig));
    }
  };
  auto compare = [&](bool init) {
    m.step();
    auto qa = ra.est.get_robot_state_queue_ptr(), qb = rb.est.get_robot_state_queue_ptr();
    m.check(qa->size() == qb->size(), "published", "different numbers of published states");
    for (;;) {
      bool last = qa->empty();
      RobotState sa = last ? ra.est.get_state() : *qa->front(), sb = last ? rb.est.get_state() : *qb->front();
      if (!last) { qa->pop(); qb->pop(); }
      Belief x = from_state(sa), y = from_state(sb);
      if (!init || kind == 5) {
        x.R = Rw * x.R;
        x.v = Rw * x.v;
        x.p = Rw * x.p + sw;
        for (auto& d : x.d) d = Rw * d + sw;
        if (!a.left) {
          Belief T;
          T.R = Rw;
          T.p = sw;
          T.d.assign(x.d.size(), sw);
          x.P = (T.Ad() * x.P * T.Ad().transpose()).eval();
        }
      }
      std::string e = diff_mean(y, x, 1e-7);
      m.check(e.empty(), "mean", e);
      e = diffP(y.P, x.P, 1e-6, !*a.imu.bias_update);
      m.check(e.empty(), "covariance", e);
      m.check(same_time(sa.get_time(), sb.get_time()) && same_time(sa.get_propagate_time(), sb.get_propagate_time()), "time", "times differ");
      m.check(near(Mat(sb.get_body_angular_velocity()), Mat(sa.get_body_angular_velocity())), "body-rate", "body angular velocity differs");
      if (!init || kind == 5) m.check(near(Mat(sb.get_body_velocity()), Mat(sa.get_body_velocity()), 1e-7, 1e-7), "body-velocity", "body velocity differs");
      m.state(hash_state(sa));
      if (last) break;
    }
  };
  if (a.imu.static_init.value())
    for (int i = 0; i < 3; i++) { push_imu(0); ra.est.InitBias(); rb.est.InitBias(); }
  if (a.imu.static_init.value()) bg = ra.est.get_state().get_gyroscope_bias();
  while (!ra.ib.q->empty()) { ra.ib.q->pop(); rb.ib.q->pop(); }
  push_vel(t, 1);
  push_leg(t, 2, 9);
  push_imu(0);
  ra.est.InitState();
  rb.est.InitState();
  compare(true);
  if (kind != 5) {   // start from a strongly correlated belief, transformed for the second run
    Belief x = from_state(ra.est.get_state()), y;
    x.R = ref::exp_so3(V3(0.3, -0.5, 1.2));
    x.v = V3(0.5, -0.3, 0.1);
    x.p = V3(2, -1, 0.4);
    x.P = full_cov(15, 0.02);
    y = x;
    y.R = Rw * x.R;
    y.v = Rw * x.v;
    y.p = Rw * x.p + sw;
    if (!a.left) {
      Belief T;
      T.R = Rw;
      T.p = sw;
      y.P = (T.Ad() * x.P * T.Ad().transpose()).eval();
    }
    auto put = [&](Real& r, const Belief& z) {
      RobotState s = to_state(z, *a.imu.bias_update, t);
      r.est.set_state(s);
    };
    put(ra, x);
    put(rb, y);
  }
  compare(false);
  int depth = m.thorough ? 5 : 3;
  for (int i = 0; i < depth; i++) {
    int op = m.choose(9, "op");
    double tp = ra.est.get_state().get_propagate_time();
    if (op < 3) { t += op == 1 ? 0.4 : 0.02; push_imu(op); }
    else if (op < 5) push_vel(tp - 0.01, op - 3);
    else push_leg(tp - 0.001, std::vector<int>{1, 6, 7, 0}[op - 5], i + 1);
    ra.est.RunOnce();
    rb.est.RunOnce();
    compare(false);
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history run on two real estimators that differ only in the world frame or in the declared mounting/scale of a sensor (readings transformed accordingly); every published state compared under that transformation";
  o.bounds = "6 kinds of frame change (world turn/shift, heading of the initial orientation, IMU rotation, IMU lever arm, velocity sensor rotation/scale, all mountings) x 4 variants x 2 error types x 2 bias modes (static initialisation for the IMU rotation) x all sequences of 3 (5) operations out of 9";
  return o;
}
MC_MAIN(options)

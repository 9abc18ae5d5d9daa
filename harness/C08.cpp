// C08: validity of the estimate under extreme but legal histories.
#include "model.hpp"
using namespace model;

static void program(mc::MC& m) {
  Cfg c;
  c.left = m.flag("left-invariant");
  c.imu.bias_update = m.flag("bias update");
  int noise = m.choose(3, "noise set");
  Cfg::Corr v, g;
  v.legs = false;
  g.legs = true;
  if (noise == 1) {   // very confident sensors
    c.imu.gyro_std = 1e-4; c.imu.acc_std = 1e-3; c.imu.gyro_bias_std = 1e-6; c.imu.acc_bias_std = 1e-6;
    v.v.std = 1e-3; g.l.enc_std = 1e-3; g.l.add_std = 1e-3; g.l.contact_std = 1e-3;
  }
  if (noise == 2) {   // very poor sensors
    c.imu.gyro_std = 3; c.imu.acc_std = 20; c.imu.gyro_bias_std = 1; c.imu.acc_bias_std = 2;
    v.v.std = 10; g.l.enc_std = 1; g.l.add_std = 2; g.l.contact_std = 5;
  }
  c.corr = {v, g};
  c.imu.rot = OV{{0.8, 0, 0, 0.6}};
  c.imu.trans = OV{{0.2, -0.1, 0.3}};
  Real r(c);
  double t = noise == 1 ? 1.7e9 : 10;
  auto leg = [&](double t, std::vector<bool> on, double size, int i) {
    std::vector<V3> pos;
    std::vector<M3> J;
    for (int l = 0; l < (int)on.size(); l++) {
      pos.push_back(size * (V3(l % 2 ? 0.3 : -0.28, l < 2 ? 0.2 : -0.23, -0.4) + 0.03 * V3(std::sin(1.0 * i + l), std::cos(2.0 * i + l), 0)));
      M3 x;
      x << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15 + 0.1 * l;
      J.push_back(size * x);
    }
    return std::make_shared<TestLegs>(t, on, pos, J, V3(0.1, 0, 0), V3(0.1, 0.2, 0));
  };
  auto init = [&] {
    r.vb[0].q->push(vel(t, V3(0.3, 0.1, 0)));
    r.lb[1].q->push(leg(t, {false, false, false, false}, 1, 0));
    r.ib.q->push(imu(t, V3(0.1, 0.2, -0.3), V3(0.3, 0.1, 9.7)));
    r.est.InitState();
  };
  auto inspect = [&](const char* what) {
    std::vector<RobotState> all;
    auto q = r.est.get_robot_state_queue_ptr();
    while (!q->empty()) { all.push_back(*q->front()); q->pop(); }
    all.push_back(r.est.get_state());
    for (auto& s : all) {
      std::string e = diff_structure(s);
      m.check(e.empty(), "structure", std::string(what) + ": " + e);
      e = diff_psd(s.get_P(), 1e-6);
      m.check(e.empty(), "covariance", std::string(what) + ": " + e);
      m.check(std::isfinite(s.get_time()) && std::isfinite(s.get_propagate_time()), "time", "time stamp is not finite");
      m.check(s.get_body_angular_velocity().allFinite(), "finite", "body rate is not finite");
      e = diff_views(s);
      m.check(e.empty(), "views", std::string(what) + ": " + e);
      m.state(hash_state(s));
    }
    m.step();
  };
  init();
  inspect("after initialisation");
  bool cyc = m.flag("periodic");
  int depth = cyc ? (m.thorough ? 300 : 60) : (m.thorough ? 6 : 4);
  int pat[2] = {0, 0};
  if (cyc) { pat[0] = m.choose(11, "first op"); pat[1] = m.choose(11, "second op"); }
  for (int i = 0; i < depth; i++) {
    double tp = r.est.get_state().get_propagate_time();
    int op = cyc ? pat[i % 2] : m.choose(12, "op");
    if (cyc && i % 9 == 8) op = 0;   // time goes on
    if (!cyc && m.thorough && i >= 4 && (op == 11 || op == 5 || op == 9 || op == 2)) return;   // the last thorough steps use 8 operations
    auto imu_at = [&](double dt, V3 w, V3 a) { t += dt; r.ib.q->push(imu(t, w, a)); r.est.RunOnce(); };
    switch (op) {
      case 0: imu_at(0.01, V3(0.02, -0.01, 0.3), V3(0.2, 0.1, 9.8)); break;
      case 1: imu_at(0.01, V3(30, -25, 40), V3(150, -90, 60)); break;
      case 2: imu_at(3, V3(0, 0, 0), V3(0, 0, 9.8)); break;
      case 3: imu_at(0, V3(0.5, 0.2, 0.1), V3(1, 1, 9)); break;
      case 4: r.vb[0].q->push(vel(tp - 0.01, V3(0.3, 0.1, -0.2))); r.est.RunOnce(); break;
      case 5: r.vb[0].q->push(vel(tp - 0.01, V3(400, -300, 200))); r.est.RunOnce(); break;
      case 6: r.lb[1].q->push(leg(tp, std::vector<bool>(noise == 2 ? 6 : 4, true), 1, i)); r.est.RunOnce(); break;
      case 7: r.lb[1].q->push(leg(tp, std::vector<bool>(noise == 2 ? 6 : 4, false), 1, i)); r.est.RunOnce(); break;
      case 8: r.lb[1].q->push(leg(tp, {true, false, true, false}, 1, i)); r.est.RunOnce(); break;
      case 9: r.lb[1].q->push(leg(tp, {false, true, true, false}, 60, i)); r.est.RunOnce(); break;
      case 10: r.est.RunOnce(); break;
      case 11: r.est.clear(); t += 1; init(); break;
    }
    inspect(("after operation " + std::to_string(op)).c_str());
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history of extreme but legal operations on the real estimator; after every operation every published state and the estimate are checked for group structure, orthonormal rotation, finiteness, symmetric positive semi-definite covariance, matching dimensions and consistent derived quantities";
  o.bounds = "2 error types x 2 bias modes x 3 noise sets x all sequences of 4 (6, the last two out of 8) operations out of 12; and all periodic histories of period 2 over 11 operations with 60 (300) steps"; 
  return o;
}
MC_MAIN(options)

// C09: life cycle and publishing.
#include "model.hpp"
using namespace model;

static LegS leg(double t, int i) {
  LegS s;
  s.t = t;
  for (int l = 0; l < 2; l++) {
    s.c.push_back((i >> l) & 1);
    s.pos.push_back(V3(0.3 - 0.5 * l, 0.2 + 0.01 * i, -0.4));
    M3 J;
    J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15;
    s.J.push_back(J);
  }
  s.iv = V3(0.1 * i, -0.2, 0.05);
  s.ig = V3(0.1, -0.3, 0.2);
  return s;
}

static void program(mc::MC& m) {
  Cfg c;
  int set = m.choose(4, "sensor set");
  int cfg = m.choose(4, "configuration");
  c.left = cfg & 1;
  c.imu.bias_update = cfg != 0;
  c.imu.static_init = cfg >= 2;
  c.imu.init_size = cfg == 2 ? 2 : 1;
  c.imu.bg = OV{{0.01, -0.02, 0.03}};
  c.imu.ba = OV{{0.1, 0.2, -0.3}};
  if (cfg == 1) {
    c.imu.imu_ori = true;
    c.est.rot_std = 0.4; c.est.vel_std = 0.5; c.est.pos_std = 0.6;
  }
  if (cfg == 3) { c.imu.rot = OV{{0.8, 0, 0, 0.6}}; c.imu.trans = OV{{0.2, -0.1, 0.3}}; }
  Cfg::Corr v, g;
  v.legs = false;
  v.v.rot = OV{{0.5, 0.5, -0.5, 0.5}};
  v.v.scale = 1.25;
  g.legs = true;
  if (set == 1 || set == 3) c.corr.push_back(v);
  if (set == 2 || set == 3) c.corr.push_back(g);
  Pair p(c);
  std::vector<std::pair<std::shared_ptr<RobotState>, uint64_t>> taken;
  double t = cfg == 1 ? 1.7e9 : 50;
  int pushed = 0;
  auto after = [&](bool may_publish) {
    m.step();
    m.check(p.r.est.is_enabled() == p.m.enabled, "enabled", p.m.enabled ? "filter is not enabled" : "filter is enabled too early");
    m.check(p.r.est.BiasInitialized() == p.m.bias_ready, "bias-flag", "bias initialisation is reported wrongly");
    std::string e = p.diff_queues();
    m.check(e.empty(), "queue", e);
    auto q = p.r.est.get_robot_state_queue_ptr();
    m.check(q->size() <= 1, "published", "more than one state published by one call");
    if (!may_publish) m.check(q->empty(), "published", "a state was published before the filter was initialised or without new information");
    if (!q->empty()) taken.push_back({q->front(), hash_state(*q->front())});
    V3 w = q->empty() ? V3(V3::Zero()) : q->front()->get_body_angular_velocity();
    bool had = !q->empty();
    e = p.diff_published();
    m.check(e.empty(), "published", e);
    if (p.m.enabled && had) m.check(near(w, p.m.body_w, 1e-9, 1e-9), "rates", "body angular velocity is wrong");
    if (p.m.enabled) {
      e = p.diff_estimate();
      m.check(e.empty(), "estimate", e);
      m.state(hash_state(p.r.est.get_state()));
    }
    for (auto& x : taken) m.check(hash_state(*x.first) == x.second, "snapshot", "a state published earlier was changed");
    for (size_t i = 0; i + 1 < taken.size(); i++)
      m.check(taken[i].first != taken.back().first, "snapshot", "the same object was published twice");
  };
  if (m.flag("a long run that nobody reads")) {
    // hundreds of steps with all published states left waiting: none may be lost or reordered
    int kind = m.choose(3, "kind"), n = m.thorough ? 2500 : 400;
    auto arrive = [&](size_t k) {
      pushed++;
      if (c.corr[k].legs) p.push(k, leg(t - 0.002, pushed % 4)); else p.push(k, VelS{t - 0.002, V3(0.5, 0.2, -0.1)});
    };
    auto arrive_imu = [&] { t += 0.004; pushed++; p.push(ImuS{t, V3(0.1, -0.2, 0.3), V3(0.3, 0.1, 9.7), OV{{0.8, 0.6, 0, 0}}}); };
    for (int j = 0; j < 4 && !p.m.bias_ready; j++) { arrive_imu(); p.init_bias(); }
    arrive_imu();
    for (size_t k = 0; k < c.corr.size(); k++) arrive(k);
    p.init_state();
    for (int i = 0; i < n; i++) {
      if (kind != 1 || i % 3) arrive_imu();
      if (kind == 2 || i % 5 == 0) for (size_t k = 0; k < c.corr.size(); k++) arrive(k);
      p.run_once();
      m.step();
    }
    std::string e = p.diff_queues();
    m.check(e.empty(), "queue", e);
    e = p.diff_published();
    m.check(e.empty(), "published", e);
    m.validated();
    return;
  }
  std::vector<int> ops = {0, 1, 2, 3, 4};   // imu arrives, InitBias, InitState, RunOnce, EnableFilter
  if (!c.corr.empty()) ops.push_back(5);
  if (set == 3) ops.push_back(6);
  ops.push_back(7);                         // two IMU samples and one of everything else arrive
  ops.push_back(8);                         // clear
  ops.push_back(9);                         // the whole start-up
  bool started = m.flag("begin with a running filter");
  int depth = (m.thorough ? 6 : 4) + (started ? 1 : set < 2 ? 1 : 0);
  if (m.thorough && set == 3) depth--;
  if (started) ops = c.corr.empty() ? std::vector<int>{9, 2, 8, 3, 0} : std::vector<int>{9, 7, 5, 3, 0, 8};
  if (started && set == 3) ops = {9, 7, 5, 6, 3, 8};
  for (int i = 0; i < depth; i++) {
    int op = started && i == 0 ? 9 : ops[m.choose(ops.size(), "op")];
    auto arrive_imu = [&] { t += 0.05; pushed++; p.push(ImuS{t, V3(0.1 * pushed, -0.2, 0.3), V3(0.3, 0.1 * pushed, 9.7), OV{{0.8, 0.6, 0, 0}}}); };
    auto arrive = [&](size_t k) {
      pushed++;
      double ts = t - 0.02;
      if (c.corr[k].legs) p.push(k, leg(ts, pushed)); else p.push(k, VelS{ts, V3(0.5 + 0.1 * pushed, 0.2, -0.1)});
    };
    if (op == 0) arrive_imu();
    else if (op == 5) arrive(0);
    else if (op == 6) arrive(1);
    else if (op == 7) { arrive_imu(); for (size_t k = 0; k < c.corr.size(); k++) arrive(k); arrive_imu(); }
    else if (op == 1) { if (p.m.enabled) continue; p.init_bias(); after(false); }
    else if (op == 2) {
      if (p.init_would_block()) continue;   // InitState waits for its sensors by design
      bool fresh = p.m.iq.size() > 0;
      p.init_state();
      after(fresh);
    }
    else if (op == 3) {
      bool empty = p.m.iq.empty();
      for (auto& q : p.m.vq) empty = empty && q.empty();
      for (auto& q : p.m.lq) empty = empty && q.empty();
      if (!p.m.enabled && !empty) continue;  // callers step an enabled filter only
      p.run_once();
      after(p.m.enabled && !empty);
    } else if (op == 4) {
      if (!p.m.enabled) continue;
      p.r.est.EnableFilter();                // enabling an enabled filter changes nothing
      after(false);
    } else if (op == 8) { p.clear(); after(false); }
    else if (op == 9) {
      if (p.m.enabled) { arrive_imu(); p.run_once(); after(true); continue; }
      for (int j = 0; j < 4 && !p.m.bias_ready; j++) { arrive_imu(); p.init_bias(); after(false); }
      arrive_imu();
      for (size_t k = 0; k < c.corr.size(); k++) { arrive(k); arrive(k); }
      p.init_state();
      after(true);
      arrive_imu();
    }
  }
  m.note(mc::fmt("published %d", (int)taken.size()));
  m.count(mc::fmt("histories that published %d states", (int)std::min<size_t>(taken.size(), 9)));
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one history of arrivals and estimator calls on a real estimator; after every call enabled flag, bias flag, queues, every published state, and all earlier published states are compared with the reference estimator";
  o.bounds = "4 sensor sets x 4 configurations x all sequences of 4-5 (5-7) operations out of 8-10 from a new filter and of 4 (6) operations out of 5-6 from a running one; InitState is only called when every sensor has data (it waits otherwise), RunOnce only on an enabled filter or with nothing queued; runs of 400 (2500) steps whose published states are read at the end only";
  return o;
}
MC_MAIN(options)

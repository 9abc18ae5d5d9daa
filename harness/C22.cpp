// C22: configuration entries.  Every entry is left out, given at its default, or given at one of two other
// values, one and two entries at a time on top of four backgrounds; a fixed script whose results depend on
// every entry is run on components built from the generated files and compared with the reference model.
#include "gyro.hpp"
#include "model.hpp"
using namespace model;

namespace {
struct Entry {
  const char* name;
  std::function<void(int)> set;   // 0 absent, 1 default, 2 and 3 other values
};
template <class O, class V>
void put(O& o, int l, V d, V a, V b) {
  if (l == 0) o.reset();
  else o = l == 1 ? d : l == 2 ? a : b;
}
// backgrounds: absent, absent together with its section, default, other value
void settle(mc::MC& m, std::vector<Entry>& e, int bg) {
  int n = (int)e.size();
  for (auto& x : e) x.set(bg == 3 ? 2 : bg == 2 ? 1 : 0);
  int i = m.choose(n, "entry");
  int li = m.choose(4, "value");
  e[i].set(li);
  if (m.thorough || i > 0) {
    int j = m.choose(i + 1, "second entry");   // j == i: only one entry differs
    if (j != i) e[j].set(m.choose(4, "value"));
    if (m.thorough && j != i && j > 0) {
      int k = m.choose(j + 1, "third entry");
      if (k != j) e[k].set(m.choose(4, "value"));
    }
    m.note(mc::fmt("entries %s and %s", e[i].name, e[j].name));
  }
}

void filter(mc::MC& m) {
  Cfg c;
  c.left = m.flag("left invariant");
  int bg = m.choose(4, "background");
  Cfg::Corr v, g;
  v.legs = false;
  g.legs = true;
  c.corr = {v, g};
  auto& V = c.corr[0].v;
  auto& L = c.corr[1].l;
  auto& I = c.imu;
  auto& E = c.est;
  typedef std::vector<double> W;
  std::vector<Entry> e = {
      {"use_imu_ori_to_init", [&](int l) { put(I.imu_ori, l, false, true, true); }},
      {"rotation_imu2body", [&](int l) { put(I.rot, l, W{1, 0, 0, 0}, W{0.8, 0.6, 0, 0}, W{0.5, 0.5, -0.5, 0.5}); }},
      {"gyroscope_std", [&](int l) { put(I.gyro_std, l, 0.1, 0.37, 0.02); }},
      {"accelerometer_std", [&](int l) { put(I.acc_std, l, 0.1, 0.41, 0.03); }},
      {"gyroscope_bias_std", [&](int l) { put(I.gyro_bias_std, l, 0.1, 0.29, 0.04); }},
      {"accelerometer_bias_std", [&](int l) { put(I.acc_bias_std, l, 0.1, 0.33, 0.05); }},
      {"gyroscope_bias", [&](int l) { put(I.bg, l, W{0, 0, 0}, W{0.1, -0.2, 0.3}, W{0, 0, 0.05}); }},
      {"accelerometer_bias", [&](int l) { put(I.ba, l, W{0, 0, 0}, W{-0.1, 0.25, 0.15}, W{0.07, 0, 0}); }},
      {"static_bias_initialization", [&](int l) { put(I.static_init, l, true, false, false); }},
      {"enable_imu_bias_update", [&](int l) { put(I.bias_update, l, false, true, true); }},
      {"init_bias_size", [&](int l) { put(I.init_size, l, 0, 2, 3); }},
      {"translation_imu2body", [&](int l) { put(I.trans, l, W{0, 0, 0}, W{0.5, -0.3, 0.2}, W{0, 1, 0}); }},
      {"velocity_std", [&](int l) { put(V.std, l, 0.1, 0.45, 0.03); }},
      {"velocity correction_time_threshold", [&](int l) { put(V.thres, l, 0.3, 0.0625, 0.5); }},
      {"velocity_scale", [&](int l) { put(V.scale, l, 1.0, 1.5, 0.25); }},
      {"rotation_vel2body", [&](int l) { put(V.rot, l, W{1, 0, 0, 0}, W{0.6, 0, 0, 0.8}, W{0.5, -0.5, 0.5, 0.5}); }},
      {"encoder_std", [&](int l) { put(L.enc_std, l, 0.01, 0.2, 0.5); }},
      {"kinematics_additive_std", [&](int l) { put(L.add_std, l, 0.05, 0.15, 0.4); }},
      {"contact_std", [&](int l) { put(L.contact_std, l, 0.1, 0.6, 0.02); }},
      {"leg correction_time_threshold", [&](int l) { put(L.thres, l, 0.3, 0.0625, 0.5); }},
      {"rotation_std_value", [&](int l) { put(E.rot_std, l, std::sqrt(0.03), 0.4, 0.05); }},
      {"velocity_std_value", [&](int l) { put(E.vel_std, l, 0.1, 0.5, 0.02); }},
      {"position_std_value", [&](int l) { put(E.pos_std, l, std::sqrt(0.00001), 0.6, 0.01); }},
  };
  settle(m, e, bg);
  if (I.imu_ori.value_or(false) && I.rot && *I.rot != W{1, 0, 0, 0}) return;   // meaning not defined
  Yaml::drop_empty() = bg == 1;
  Pair p(c);
  Yaml::drop_empty() = false;
  auto leg = [](double t, std::vector<bool> ct, int i) {
    LegS s;
    s.t = t;
    s.c = ct;
    s.pos = {V3(0.3, 0.2 + 0.02 * i, -0.4), V3(0.28, -0.21, -0.41 - 0.01 * i)};
    M3 J;
    J << 0.1, 0.3, -0.2, 0.05, -0.1, 0.4, 0.2, 0.1, 0.15;
    s.J = {J, 1.3 * J};
    s.iv = V3(0.2, -0.1, 0.05);
    return s;
  };
  double t = 10;
  int n = 0;
  auto sample = [&](double dt) {
    t += dt;
    n++;
    p.push(ImuS{t, V3(0.2 * n, -0.3, 0.5 - 0.1 * n), V3(0.3, 0.2 * n, 9.6), OV{{0.6, 0, 0.8, 0}}});
  };
  auto diff = [&] {
    m.step();
    std::string d = p.diff_queues();
    if (d.empty()) d = p.diff_published();
    if (d.empty()) d = p.diff_estimate();
    m.check(d.empty(), "entry", d);
    m.state(hash_state(p.r.est.get_state()));
  };
  for (int i = 0; i < 5 && !p.m.bias_ready; i++) {
    sample(0.01);
    p.init_bias();
    m.step();
    std::string d = p.diff_queues();
    m.check(d.empty() && p.r.est.BiasInitialized() == p.m.bias_ready, "bias-window", d.empty() ? "bias initialisation does not take the configured number of samples" : d);
  }
  m.check(p.m.bias_ready, "bias-window", "internal: not ready");
  p.push(0, VelS{t, V3(0.6, 0.2, -0.1)});
  p.push(1, leg(t, {true, false}, 0));
  sample(0.01);
  p.init_state();
  diff();
  auto run = [&] { p.run_once(); diff(); };
  sample(0.0625); run();
  p.push(0, VelS{t - 0.15, V3(0.7, 0.1, -0.1)}); run();
  p.push(1, leg(t - 0.0625, {true, true}, 1)); run();
  sample(0.125); run();
  p.push(0, VelS{t - 0.15 - 0.25, V3(0.8, 0.1, 0)}); run();
  p.push(1, leg(t - 0.125 - 0.15, {true, false}, 2)); run();
  p.push(1, leg(t - 0.125 - 0.4, {true, true}, 3)); run();
  p.push(0, VelS{t - 0.15 - 0.4, V3(0.5, 0.3, 0)}); run();
  sample(0.0625); run();
  p.push(1, leg(t - 0.07, {false, true}, 4)); run();
  p.push(1, leg(t - 0.07, {true, true}, 5)); run();
  sample(0.125); run();
  p.push(0, VelS{t - 0.13, V3(0.6, 0.2, 0.1)}); run();
  m.validated();
}

std::vector<std::vector<double>> parse(const std::string& f) {
  std::vector<std::vector<double>> r;
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    std::vector<double> x;
    double d;
    while (s >> d) x.push_back(d);
    r.push_back(x);
  }
  return r;
}
void logger(mc::MC& m) {
  std::string dir = scratch() + "/log.d";
  mkdir(dir.c_str(), 0700);
  if (chdir(dir.c_str())) throw std::runtime_error("chdir");
  EstCfg e;
  e.logger = m.flag("enable");
  auto name = [&](int k, const char* base, const char* dflt, OS& o) -> std::string {
    if (k == 0) return dir + "/" + dflt;
    std::string b = dir + "/" + base;
    o = "\"" + (k == 4 ? "./" + std::string(base) : b + (k == 1 ? ".txt" : k == 2 ? ".csv" : "")) + "\"";
    return b;
  };
  std::string pf = name(m.choose(5, "pose_log_file"), "pose", "inekf_pose", e.pose_log);
  std::string vf = name(m.choose(5, "vel_log_file"), "vel", "inekf_vel", e.vel_log);
  int rk = m.choose(4, "pose_log_rate");
  double period = 0.1;
  if (rk) { e.log_rate = rk == 1 ? 10 : rk == 2 ? 4 : 16; period = 1 / *e.log_rate; }
  std::string files[3] = {pf + ".txt", vf + ".txt", vf + "_body_frame.txt"};
  for (auto& f : files) unlink(f.c_str());
  std::vector<double> want;
  std::string ef = e.file();
  {
    ImuBuf ib;
    VelBuf vb;
    InekfEstimator est(ErrorType::RightInvariant, ef);
    est.add_imu_propagation(ib.q, ib.m, ImuCfg().file());
    est.add_velocity_correction(vb.q, vb.m, VelCfg().file());
    est.InitBias();
    vb.q->push(vel(1, V3(1, 0, 0)));
    ib.q->push(imu(1, V3::Zero(), V3(0, 0, 9.8)));
    est.InitState();
    double last = 0, t = 1;
    for (int i = 0; i < 12; i++) {
      ib.q->push(imu(t += 1.0 / 16, V3(0.1, 0, 0), V3(0.2, 0, 9.8)));
      est.RunOnce();
      double at = est.get_state().get_time();
      if (at - last >= period) { want.push_back(at); last = at; }
      m.step();
    }
  }
  if (chdir("/")) throw std::runtime_error("chdir");
  for (int k = 0; k < 3; k++) {
    if (!e.logger) {
      m.check(access(files[k].c_str(), F_OK) != 0, "log-off", "a log file appeared though logging is off");
      continue;
    }
    auto l = parse(files[k]);
    m.check(l.size() == want.size(), "log", mc::fmt("%s has %d lines, expected %d", files[k].c_str(), (int)l.size(), (int)want.size()));
    for (size_t i = 0; i < l.size(); i++) m.check(l[i].size() == (k ? 4u : 8u) && l[i][0] == want[i], "log", "wrong line in " + files[k]);
  }
  m.state(mc::hash_mix(e.logger * 10 + rk, mc::fnv(files[0].data(), files[0].size()) ^ mc::fnv(files[1].data(), files[1].size())));
  m.validated();
}

void gyrofilter(mc::MC& m) {
  using namespace gyro;
  GyroCfg c;
  Ref r;
  r.corr = (Corr)m.choose(4, "corrections");
  r.gyro_prop = m.flag("gyro propagation");
  bool five = r.corr != MULTI && m.flag("sources chosen by the configuration");
  int bg = m.choose(4, "background");
  int method = five ? (int)r.corr : 0;
  typedef std::vector<double> W;
  std::vector<Entry> e = {
      {"static_bias_initialization", [&](int l) { put(c.static_init, l, false, true, true); }},
      {"init_bias_size", [&](int l) { put(c.init_size, l, 250, 2, 3); }},
      {"ang_vel_bias", [&](int l) { put(c.prior, l, W{0, 0, 0}, W{0.1, -0.2, 0.15}, W{0, 0, 0.3}); }},
      {"rotation_imu2body", [&](int l) { put(c.rot, l, W{1, 0, 0, 0}, W{0.5, 0.5, -0.5, 0.5}, W{0.8, 0.6, 0, 0}); }},
      {"flat_ground", [&](int l) { put(c.flat, l, false, true, true); }},
      {"t_threshold", [&](int l) { put(c.t_thres, l, 0.03, 0.004, 0.2); }},
      {"ang_vel_std", [&](int l) { put(c.av_std, l, 0.01, 0.2, 0.05); }},
      {"ang_vel_bias_std", [&](int l) { put(c.av_bias_std, l, 0.01, 0.3, 0.04); }},
      {"filter_std", [&](int l) { put(c.f_std, l, 0.01, 0.15, 0.03); }},
      {"filter_bias_std", [&](int l) { put(c.f_bias_std, l, 0.01, 0.25, 0.02); }},
      {"imu_meas_noise_std", [&](int l) { put(c.imu_std, l, 0.1, 0.02, 0.35); }},
      {"encoder_meas_noise_std", [&](int l) { put(c.enc_std, l, 0.1, 0.03, 0.45); }},
  };
  settle(m, e, bg);
  if (five && (method != 0 || m.flag("method given"))) c.method = method;
  if (!five) {  // the registered sources decide, whatever the file says
    int g = m.choose(2, "method in the file");
    if (g) c.method = ((int)r.corr + 1) % 4;
  }
  bool stat = c.static_init.value_or(false);
  if (r.corr == ANGVEL && stat) return;   // unsupported: there is no IMU to average
  r.stat = stat;
  r.win = c.init_size.value_or(250);
  r.flat = c.flat.value_or(false);
  r.thres = c.t_thres.value_or(0.03);
  r.Rinv = quatR(c.rot).transpose();
  r.r_imu = sq(c.imu_std.value_or(0.1));
  r.r_enc = sq(c.enc_std.value_or(0.1));
  if (!stat) r.x.tail<3>() = v3(c.prior);
  r.P.diagonal() << V3::Constant(sq(c.av_std.value_or(0.01))), V3::Constant(sq(c.av_bias_std.value_or(0.01)));
  r.Q.diagonal() << V3::Constant(sq(c.f_std.value_or(0.01))), V3::Constant(sq(c.f_bias_std.value_or(0.01)));
  int nimu = r.corr == MULTI ? 2 : 1;
  r.imus.resize(nimu);
  std::vector<ImuBuf> bi(nimu);
  ImuBuf bgy;
  AngBuf be;
  Yaml::drop_empty() = bg == 1;
  std::string file = c.file();
  Yaml::drop_empty() = false;
  std::unique_ptr<imu_filter::ImuAngVelEKF> f;
  if (five) {
    f.reset(new imu_filter::ImuAngVelEKF(bi[0].q, bi[0].m, be.q, be.m, file));
  } else {
    f.reset(new imu_filter::ImuAngVelEKF(file));
    if (r.corr != ANGVEL) for (auto& b : bi) f->add_imu_correction(b.q, b.m);
    if (r.corr == ANGVEL || r.corr == PLUS) f->add_ang_vel_correction(be.q, be.m);
  }
  if (r.gyro_prop) f->add_gyro_propagate(bgy.q, bgy.m);
  auto out = f->get_filtered_imu_data_buffer_ptr();
  size_t seen = 0;
  auto run = [&] {
    m.step();
    r.run();
    f->RunOnce();
    for (int i = 0; i < nimu; i++) m.check(r.corr == ANGVEL || bi[i].q->size() == r.imus[i].size(), "gyro-entry", "IMU samples are not used as configured");
    m.check(be.q->size() == r.enc.size() && bgy.q->size() == r.gyro.size(), "gyro-entry", "samples are not used as configured");
    m.check(out->size() == r.out.size() - seen, "gyro-entry", mc::fmt("%d filtered samples, expected %d", (int)out->size(), (int)(r.out.size() - seen)));
    while (!out->empty()) {
      auto o = out->front();
      out->pop();
      const Out& x = r.out[seen++];
      m.check(o->get_time() == x.t, "gyro-entry", "wrong time of a filtered sample");
      m.check(near(o->get_angular_velocity(), x.w, 1e-9, 1e-10), "gyro-entry",
              mc::fmt("filtered rate [%s], expected [%s]", ms(o->get_angular_velocity().transpose()).c_str(), ms(x.w.transpose()).c_str()));
      m.state(mc::hash_d(mc::hash_d(mc::hash_d(r.corr, x.w(0)), x.w(1)), x.w(2)));
    }
  };
  int n = 0;
  double now = 10;
  auto arrive = [&](int src, double t) {
    n++;
    S s{t, V3(0.3 * std::sin(n), -0.2 + 0.05 * (n % 7), 0.4 * std::cos(2.0 * n)), V3(0.1 * (n % 5), -0.2, 9.8), OV{{1, 0, 0, 0}}};
    if (src == 0) { r.enc.push_back(s); be.q->push(angvel(s.t, s.w)); }
    else if (src == 1) { r.gyro.push_back(s); bgy.q->push(imu(s.t, s.w, s.a, s.q)); }
    else { r.imus[src - 2].push_back(s); bi[src - 2].q->push(imu(s.t, s.w, s.a, s.q)); }
  };
  bool enc = r.corr == ANGVEL || r.corr == PLUS, ims = r.corr != ANGVEL;
  if (stat)
    for (int i = 0; i < r.win; i++) {
      arrive(2, now);
      if (r.gyro_prop) arrive(1, now);
      now += 0.01;
      run();
    }
  run();
  // corrections at the propagation time and 0.01, 0.1, 0.3 behind it
  static const double lag[] = {0, 0.01, 0.1, 0.3, 0.002};
  for (int i = 0; i < 10; i++) {
    now += 0.02;
    if (r.gyro_prop) arrive(1, now);
    if (ims) for (int k = 0; k < nimu; k++) arrive(2 + k, now - lag[i % 5]);
    if (enc && i) arrive(0, now - lag[(i + 2) % 5]);
    run();
    if (i % 3 == 2) run();
  }
  m.validated();
}

// The configuration files also document an older entry for the start-up of the biases.
void superseded(mc::MC& m) {
  ImuCfg c;
  c.static_init = true;
  c.init_size = 2;
  std::string f = c.file(), g = scratch() + "/sup.yaml";
  bool on = m.flag("init_bias_using_orientation_est_from_imu");
  {
    std::ifstream in(f);
    std::ofstream out(g);
    std::string l;
    while (std::getline(in, l)) {
      out << l << "\n";
      if (l.find("settings:") == 0) out << "  init_bias_using_orientation_est_from_imu: " << (on ? "true" : "false") << "\n";
    }
  }
  ImuBuf ib;
  EstCfg e;
  InekfEstimator est(ErrorType::RightInvariant, e.file());
  est.add_imu_propagation(ib.q, ib.m, g);
  // standing still, tilted: the orientation explains the acceleration completely
  OV q{{0.8, 0.6, 0, 0}};
  V3 a = quatR(q).transpose() * V3(0, 0, 9.8);
  for (int i = 0; i < 6 && !est.BiasInitialized(); i++) { ib.q->push(imu(1 + i, V3::Zero(), a, q)); est.InitBias(); }
  while (!ib.q->empty()) ib.q->pop();
  ib.q->push(imu(9, V3::Zero(), a, q));
  est.InitState();
  V3 ba = est.get_state().get_theta().segment(3, 3), want = on ? V3(V3::Zero()) : V3(a - V3(0, 0, 9.8));
  m.check(near(ba, want, 1e-9, 1e-9), on ? "init_bias_using_orientation_est_from_imu" : "bias-start",
          mc::fmt("the accelerometer bias starts at [%s], expected [%s]", ms(ba.transpose()).c_str(), ms(want.transpose()).c_str()));
  m.step();
  m.state(on);
  m.validated();
}

void program(mc::MC& m) {
  switch (m.choose(4, "component")) {
    case 0: filter(m); break;
    case 1: logger(m); break;
    case 2: gyrofilter(m); break;
    case 3: superseded(m); break;
  }
}
}  // namespace
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 5;
  o.what = "one set of generated configuration files: components are built from it, a fixed script that depends on every entry is run, and every published state, filtered sample or log line is compared with the reference model for that configuration";
  o.bounds = "23 filter entries and 12 gyro-filter entries, each {absent, default, two other values}, all single entries and pairs (thorough: triples) over 4 backgrounds (others absent, absent with their sections, default, another value) x 2 error types / 8 source sets; all combinations of the 4 logging entries";
  return o;
}
MC_MAIN(options)

// C14: the angular-velocity Kalman filter in front of the propagation, driven synchronously (RunOnce).
#include "gyro.hpp"
using namespace kit;
using namespace gyro;
using imu_filter::ImuAngVelEKF;

namespace {
template <class Ptr>
using Buf = kit::Buf<std::queue<Ptr>>;

const std::vector<V3> RATES = {V3(0.3, -0.2, 0.5), V3(-0.1, 0.4, 0.2), V3(0.05, 0.1, -0.7)};
const std::vector<OV> QS = {OV{{1, 0, 0, 0}}, OV{{0.8, 0.6, 0, 0}}, OV{{0.5, 0.5, -0.5, 0.5}}};

void program(mc::MC& m) {
  Ref r;
  GyroCfg c;
  r.corr = (Corr)m.choose(4, "corrections");
  r.gyro_prop = m.flag("gyro propagation");
  int conf = m.choose(8, "configuration");
  bool five = false;             // built with the buffers, corrections chosen by the configuration file
  int nimu = r.corr == MULTI ? 2 : 1;
  // noises that are all different, so that none can stand in for another
  c.av_std = 0.2; c.av_bias_std = 0.3; c.f_std = 0.15; c.f_bias_std = 0.05; c.imu_std = 0.25; c.enc_std = 0.12;
  c.t_thres = 1.0 / 32;
  switch (conf) {
    case 0: r.flat = true; c.prior = OV{{0.1, -0.2, 0.15}}; c.rot = OV{{0.5, 0.5, -0.5, 0.5}}; break;
    case 1: r.flat = false; c.rot = OV{{0.8, 0.6, 0, 0}}; break;
    case 2: r.stat = true; r.win = 2; r.flat = true; break;
    case 3: r.stat = true; r.win = 0; r.flat = false; c.prior = OV{{0.1, -0.2, 0.15}}; break;
    case 4: five = true; r.flat = true; c.prior = OV{{0.1, -0.2, 0.15}}; break;
    case 5: r.stat = true; r.win = 1; five = true; r.flat = true; c.rot = OV{{0, 0.6, 0.8, 0}}; break;
    case 6: r.flat = true; nimu = r.corr == MULTI ? 3 : 1; break;
    case 7: r.stat = true; r.win = 250; r.flat = true; five = r.corr != MULTI && m.flag("built with the buffers"); break;     // the default window, and many samples waiting
  }
  if (r.corr == ANGVEL && r.stat) return;          // unsupported: there is no IMU to average
  if (five && r.corr == MULTI) return;             // this constructor takes one IMU
  c.flat = r.flat;
  c.static_init = r.stat;
  if (r.stat && conf != 7) c.init_size = r.win;
  if (five) c.method = (int)r.corr;
  r.thres = *c.t_thres;
  r.Rinv = quatR(c.rot).transpose();
  r.r_imu = sq(*c.imu_std);
  r.r_enc = sq(*c.enc_std);
  if (!r.stat) r.x.tail<3>() = v3(c.prior);
  r.P.diagonal() << V3::Constant(sq(*c.av_std)), V3::Constant(sq(*c.av_bias_std));
  r.Q.diagonal() << V3::Constant(sq(*c.f_std)), V3::Constant(sq(*c.f_bias_std));
  r.imus.resize(nimu);

  std::vector<Buf<ImuMeasurementPtr>> bi(nimu);
  Buf<ImuMeasurementPtr> bg;
  Buf<AngularVelocityMeasurementPtr> be;
  std::unique_ptr<ImuAngVelEKF> f;
  if (five) {
    f.reset(new ImuAngVelEKF(bi[0].q, bi[0].m, be.q, be.m, c.file()));
  } else {
    f.reset(new ImuAngVelEKF(c.file()));
    if (r.corr != ANGVEL) for (auto& b : bi) f->add_imu_correction(b.q, b.m);
    if (r.corr == ANGVEL || r.corr == PLUS) f->add_ang_vel_correction(be.q, be.m);
  }
  if (r.gyro_prop) f->add_gyro_propagate(bg.q, bg.m);
  auto out = f->get_filtered_imu_data_buffer_and_mutex_ptr();
  m.check(out.first == f->get_filtered_imu_data_buffer_ptr() && out.second == f->get_filtered_imu_data_buffer_mutex_ptr(), "getters", "the output queue getters disagree");

  std::vector<std::pair<ImuMeasurementPtr, S>> given;
  size_t seen = 0;
  int n = 0;
  double now = conf == 1 ? 1700000000 : 10;
  auto diff = [&] {
    for (int i = 0; i < nimu; i++)
      m.check(r.corr == ANGVEL || bi[i].q->size() == r.imus[i].size(), "imu-consumption",
              mc::fmt("IMU %d has %zu samples waiting, expected %zu", i, bi[i].q->size(), r.imus[i].size()));
    m.check(be.q->size() == r.enc.size(), "encoder-consumption", mc::fmt("encoder has %zu samples waiting, expected %zu", be.q->size(), r.enc.size()));
    m.check(bg.q->size() == r.gyro.size(), "gyro-consumption", mc::fmt("gyro has %zu samples waiting, expected %zu", bg.q->size(), r.gyro.size()));
    m.check(out.first->size() == r.out.size() - seen, "output-count", mc::fmt("%zu filtered samples, expected %zu", out.first->size(), r.out.size() - seen));
    while (!out.first->empty()) {
      auto o = out.first->front();
      out.first->pop();
      const Out& e = r.out[seen++];
      m.check(o->get_time() == e.t, "output-time", mc::fmt("filtered sample carries time %.9f, expected %.9f", o->get_time(), e.t));
      m.check(near(o->get_angular_velocity(), e.w, 1e-9, 1e-10), "output-rate",
              mc::fmt("filtered rate [%s], expected [%s]", ms(o->get_angular_velocity().transpose()).c_str(), ms(e.w.transpose()).c_str()));
      m.check(near(o->get_lin_acc(), e.a, 0, 1e-12), "output-acceleration", "filtered sample does not carry the latest IMU's acceleration");
      m.check(near(o->get_rotation_matrix(), quatR(e.q), 0, 1e-12), "output-orientation", "filtered sample does not carry the latest IMU's orientation");
      for (auto& g : given) m.check(o != g.first, "alias", "the filtered sample is the sensor's own object");
      m.state(mc::hash_d(mc::hash_d(mc::hash_d(mc::hash_d(mc::hash_mix(17, r.corr * 16 + conf), e.t), e.w(0)), e.w(1)), e.w(2)));
    }
    for (auto& g : given)
      m.check(g.first->get_time() == g.second.t && near(g.first->get_angular_velocity(), g.second.w, 0, 0), "input-changed", "the filter modified a sensor's sample");
  };
  auto run = [&] {
    m.note("step");
    m.step();
    r.run();
    f->RunOnce();
    diff();
  };
  auto arrive = [&](int src, double off) {         // src: 0 encoder, 1 gyro, 2.. IMUs
    n++;
    S s{now + off, RATES[n % 3] + V3(0.01 * n, 0.02 * n, -0.015 * n), V3(0.1 * n, -0.2, 9.8 + 0.01 * n), QS[n % 3]};
    if (src == 1) now = std::max(now, s.t);
    m.note(mc::fmt("source %d delivers t=%.5f w=[%s]", src, s.t, ms(s.w.transpose()).c_str()));
    if (src == 0) {
      r.enc.push_back(s);
      be.q->push(angvel(s.t, s.w));
    } else {
      auto p = imu(s.t, s.w, s.a, s.q);
      given.push_back({p, s});
      if (src == 1) { r.gyro.push_back(s); bg.q->push(p); }
      else { r.imus[src - 2].push_back(s); bi[src - 2].q->push(p); }
    }
  };
  std::vector<int> src;
  if (r.gyro_prop) src.push_back(1);
  if (r.corr == ANGVEL || r.corr == PLUS) src.push_back(0);
  if (r.corr != ANGVEL) for (int i = 0; i < nimu; i++) src.push_back(2 + i);
  if (conf == 7) {
    bool burst = m.flag("all at once");
    int n = 300 + m.choose(2, "odd"), lag = m.choose(3, "steps per arrival");
    for (int i = 0; i < n; i++) {
      now += 1.0 / 256;
      for (int s : src) arrive(s, s == 1 ? 0 : -1.0 / 512 * (s % 2));
      if (!burst) for (int k = 0; k < lag; k++) run();
    }
    for (int i = 0; i < 3 * n; i++) run();
    for (int i = 0; i < 200; i++) {        // initialised: a backlog builds up and is worked off
      now += 1.0 / 256;
      for (int s : src) arrive(s, s == 1 ? 0 : -1.0 / 512);
      if (i % 3 == lag) run();
    }
    for (int i = 0; i < 500; i++) run();
    if (m.flag("reset with much waiting")) {
      for (int i = 0; i < 200; i++) { now += 1.0 / 256; for (int s : src) arrive(s, 0); }
      r.out.resize(seen);
      auto keep = r.out;
      r.clear();
      r.out = keep;
      f->clear();
      diff();
      for (int i = 0; i < 4; i++) { now += 1.0 / 256; for (int s : src) arrive(s, 0); run(); }
    }
    m.validated();
    return;
  }
  // optional start: everything initialised and propagated once
  if (m.flag("warm start")) {
    if (r.stat)
      for (int i = 0; i < r.win; i++) {
        arrive(2, 0);
        if (r.gyro_prop) arrive(1, 0);
        now += 1.0 / 64;
        run();
      }
    run();
    run();
    if (r.gyro_prop) { arrive(1, 1.0 / 64); run(); }
    if (r.corr != ANGVEL) { arrive(2, 0); run(); }
  }
  // offsets from the newest propagation: same time, newer, exactly at the threshold, too old
  static const double off[] = {0, 1.0 / 64, -1.0 / 32, -1.0 / 16};
  int depth = m.thorough ? 4 : 3;
  bool cleared = false;
  for (int i = 0; i < depth; i++) {
    int k = m.choose((int)src.size() * 8 + (r.ready ? 2 : 1), "operation");
    if (k == (int)src.size() * 8) { run(); continue; }
    if (k == (int)src.size() * 8 + 1) {            // reset of the filter's queues
      m.note("clear");
      r.out.resize(seen);
      auto keep = r.out;
      r.clear();
      r.out = keep;
      f->clear();
      diff();
      continue;
    }
    int runs = k & 1, o = (k >> 1) & 3, s = src[k / 8];
    arrive(s, s == 1 ? (o == 0 ? 1.0 / 64 : o == 1 ? 1.0 / 32 : o == 2 ? 3.0 / 64 : 1.0 / 8) : off[o]);
    if (s == 1 && !runs) {}
    if (runs) run();
  }
  for (int i = 0; i < depth + 2 + r.win; i++) run();
  m.validated();
}
}    // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one sequence of sample arrivals, filter steps and queue resets on a real ImuAngVelEKF, then drained; input queues and every filtered sample compared with a reference Kalman filter after each step";
  o.bounds = "4 correction combinations x 2 propagation sources x 8 configurations (3-D/yaw-only, mounting, priors, static windows 0-2 and the default 250 with hundreds of samples waiting, both constructors, 2-3 IMUs) x cold/warm start x all sequences of 3 (4) operations out of (sources x 4 time offsets x with/without step) + step + reset";
  return o;
}
MC_MAIN(options)

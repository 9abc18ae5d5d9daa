// C15: the gyro filter's own thread together with its producers, a reader and the owner.
#include <unsupported/Eigen/MatrixFunctions>
#include <atomic>
#include <thread>
#include "gyro.hpp"
#include "conc.hpp"
#include "drift/estimator/inekf_estimator.h"
using namespace kit;
using namespace gyro;
using imu_filter::ImuAngVelEKF;

namespace {
template <class Ptr>
using GBuf = kit::Buf<std::queue<Ptr>>;

struct Plan {
  Corr corr = SINGLE;
  bool gyro_prop = true;
  int nimu = 1, win = -1;              // static window, or a prior
  std::vector<std::pair<int, std::vector<S>>> producers;   // queue, samples
  int before = 0;                      // samples of each producer that wait before the thread starts
  bool clear = false, patient = true;  // the owner resets; the owner waits for everything to be used up
  int reads = 2;
  std::string name;
};
GyroCfg config(const Plan& p) {
  GyroCfg c;
  c.av_std = 0.2; c.av_bias_std = 0.3; c.f_std = 0.15; c.f_bias_std = 0.05; c.imu_std = 0.25; c.enc_std = 0.12;
  c.t_thres = 1.0 / 32;
  c.flat = true;
  c.rot = OV{{0.5, 0.5, -0.5, 0.5}};
  c.static_init = p.win >= 0;
  if (p.win >= 0) c.init_size = p.win; else c.prior = OV{{0.1, -0.2, 0.15}};
  c.method = (int)p.corr;
  return c;
}
Ref reference(const Plan& p) {
  GyroCfg c = config(p);
  Ref r;
  r.corr = p.corr;
  r.gyro_prop = p.gyro_prop;
  r.flat = true;
  r.stat = p.win >= 0;
  r.win = std::max(0, p.win);
  r.thres = *c.t_thres;
  r.Rinv = quatR(c.rot).transpose();
  r.r_imu = sq(*c.imu_std);
  r.r_enc = sq(*c.enc_std);
  if (!r.stat) r.x.tail<3>() = v3(c.prior);
  r.P.diagonal() << V3::Constant(sq(*c.av_std)), V3::Constant(sq(*c.av_bias_std));
  r.Q.diagonal() << V3::Constant(sq(*c.f_std)), V3::Constant(sq(*c.f_bias_std));
  r.imus.resize(p.nimu);
  return r;
}
S sample(int q, int k) {
  static const double d[] = {0, 1.0 / 128, 3.0 / 256};
  S s{10 + k / 64.0 + (q == QG ? 1.0 / 64 : q == QE ? 1.0 / 256 : d[(q - QI) % 3]), V3(0.3 + 0.1 * k, -0.2 + 0.05 * q, 0.5 - 0.07 * k), V3(0.1 * k, -0.2, 9.8 + 0.01 * q), OV{{0.8, 0.6, 0, 0}}};
  s.id = 1 + q * 100 + k;
  return s;
}

// What can come out: a depth-first enumeration of the reference filter with the environment's steps placed
// before its queue accesses.  A step on a queue matters only at the next access to that queue.
struct Stop {};
struct Result {
  std::vector<Out> read;
  std::vector<size_t> left;
};
struct Allowed {
  const Plan& p;
  std::map<std::string, std::vector<Result>> out;
  uint64_t paths = 0;
  std::unordered_set<uint64_t> seen;
  static std::string bucket(const std::vector<double>& t, const std::vector<size_t>& left) {
    std::string k;
    for (double x : t) k += mc::fmt("%.6f ", x);
    for (auto x : left) k += mc::fmt("|%d", (int)x);
    return k;
  }
  explicit Allowed(const Plan& plan) : p(plan) {
    mc::MC e;
    do {
      e.restart();
      try { one(e); } catch (Stop&) {}
      paths++;
    } while (e.next(0));
    seen.clear();
  }
  void one(mc::MC& e) {
    Ref r = reference(p);
    std::vector<size_t> pos(p.producers.size(), 0);
    std::vector<int> owner;                 // queues the owner empties, then -1: stop
    if (p.clear) {
      if (p.gyro_prop) owner.push_back(QG);
      for (int k = 0; k < p.nimu; k++) owner.push_back(QI + k);
      if (p.corr == PLUS || p.corr == ANGVEL) owner.push_back(QE);
      owner.push_back(QO);
    }
    if (!p.patient) owner.push_back(-1);
    size_t opos = 0;
    bool stopped = false, changed = false;
    int reads = p.reads;
    std::vector<Out> read;
    auto queue = [&](int q) -> std::deque<S>& { return q == QG ? r.gyro : q == QE ? r.enc : r.imus[q - QI]; };
    auto producer = [&](int q) -> int {
      for (size_t i = 0; i < pos.size(); i++) if (p.producers[i].first == q) return (int)i;
      return -1;
    };
    auto push = [&](int i) { queue(p.producers[i].first).push_back(p.producers[i].second[pos[i]++]); changed = true; };
    auto room = [&](int q) { int i = producer(q); return i < 0 ? 0 : (int)(p.producers[i].second.size() - pos[i]); };
    auto pushes = [&](int q) { int n = room(q); if (n) for (int k = e.choose(n + 1); k > 0; k--) push(producer(q)); };
    auto takes = [&] {
      int n = std::min(reads, (int)r.out.size());
      if (n) for (int k = e.choose(n + 1); k > 0; k--) { read.push_back(r.out.front()); r.out.erase(r.out.begin()); reads--; }
    };
    auto owner_to = [&](size_t to) {
      while (opos < to) {
        int q = owner[opos++];
        changed = true;
        if (q == -1) { stopped = true; continue; }
        if (q == QO) { takes(); r.out.clear(); }
        else { pushes(q); queue(q).clear(); }
      }
    };
    std::set<int> looked;
    auto hook = [&](int q) {
      looked.insert(q);
      // the owner gets up to some operation on this queue
      std::vector<size_t> to{opos};
      for (size_t i = opos; i < owner.size(); i++) if (owner[i] == q) to.push_back(i + 1);
      if (q == -1 && to.back() != owner.size()) to.push_back(owner.size());
      size_t t = to.size() > 1 ? to[e.choose((int)to.size())] : opos;
      owner_to(t);
      if (q >= 0 && q != QO) pushes(q);
    };
    r.hook = hook;
    for (size_t i = 0; i < pos.size(); i++) for (int k = 0; k < p.before; k++) push((int)i);
    for (int n = 0;; n++) {
      hook(-1);
      if (stopped) break;
      changed = false;
      looked.clear();
      uint64_t h0 = hash(r);
      r.run();
      uint64_t h1 = hash(r);
      bool effect = changed || h0 != h1;
      if (!effect) {
        bool all = opos == owner.size();
        for (size_t i = 0; i < pos.size(); i++) all = all && (pos[i] == p.producers[i].second.size() || !looked.count(p.producers[i].first));
        if (all && p.patient) break;        // everything has been used up
        throw Stop();                       // a turn without any effect: the same as not having taken it
      }
      uint64_t h = h1;
      for (auto x : pos) h = mc::hash_mix(h, x);
      h = mc::hash_mix(h, opos * 8 + reads);
      for (auto& o : read) h = mc::hash_d(mc::hash_d(h, o.t), o.w(0));
      if (e.pos_ >= e.seq_.size() && !seen.insert(h).second) throw Stop();   // been here, with everything below
    }
    for (size_t i = 0; i < pos.size(); i++) while (pos[i] < p.producers[i].second.size()) push((int)i);
    for (auto& o : r.out) read.push_back(o);
    Result res;
    res.read = read;
    for (auto& pr : p.producers) res.left.push_back(queue(pr.first).size());
    std::vector<double> ts;
    for (auto& o : read) ts.push_back(o.t);
    auto& v = out[bucket(ts, res.left)];
    for (auto& x : v) if (same(x, res)) return;
    v.push_back(res);
  }
  static bool same(const Result& a, const Result& b) {
    for (size_t i = 0; i < a.read.size(); i++) if ((a.read[i].w - b.read[i].w).norm() > 1e-13) return false;
    return true;
  }
  uint64_t hash(const Ref& r) const {
    uint64_t h = 7;
    auto d = [&](double x) { h = mc::fnv(&x, sizeof x, h); };
    if (p.gyro_prop) {                       // in a random walk the uncertainty grows with every turn
      for (int i = 0; i < 6; i++) d(r.x(i));
      for (int i = 0; i < 36; i++) d(r.P.data()[i]);
    }
    for (auto& q : r.imus) { h = mc::hash_mix(h, q.size()); for (auto& s : q) h = mc::hash_mix(h, s.id); }
    h = mc::hash_mix(h, r.enc.size()); for (auto& s : r.enc) h = mc::hash_mix(h, s.id);
    h = mc::hash_mix(h, r.gyro.size()); for (auto& s : r.gyro) h = mc::hash_mix(h, s.id);
    h = mc::hash_mix(h, r.out.size()); for (auto& o : r.out) { d(o.t); if (p.gyro_prop) d(o.w(0)); }
    h = mc::hash_mix(h, r.ready * 4 + r.have_prop * 2 + r.have_latest);
    h = mc::hash_mix(h, r.window.size()); for (auto& w : r.window) d(w(0));
    if (r.have_latest) h = mc::hash_mix(h, r.latest.id);
    d(r.prop_t); d(r.prev(0));
    return h;
  }
};

std::vector<Plan> plans(bool thorough) {
  std::vector<Plan> v;
  auto add = [&](const char* name, Corr c, bool g, int nimu, int win, int n, int before) {
    Plan p;
    p.corr = c; p.gyro_prop = g; p.nimu = nimu; p.win = win; p.before = before;
    auto prod = [&](int q, int k) {
      std::vector<S> s;
      for (int i = 0; i < k; i++) s.push_back(sample(q, i));
      p.producers.push_back({q, s});
    };
    if (g) prod(QG, n);
    if (c != ANGVEL) for (int i = 0; i < nimu; i++) prod(QI + i, n);
    if (c == ANGVEL || c == PLUS) prod(QE, n);
    p.name = name;
    v.push_back(p);
  };
  add("gyro, one IMU", SINGLE, true, 1, -1, 2, 0);
  add("gyro, one IMU, waiting samples", SINGLE, true, 1, -1, 3, 2);
  add("gyro, one IMU, static start", SINGLE, true, 1, 1, 3, 1);
  add("gyro, IMU and encoder", PLUS, true, 1, -1, 2, 1);
  add("gyro, two IMUs", MULTI, true, 2, -1, 2, 1);
  add("gyro, encoder", ANGVEL, true, 1, -1, 2, 1);
  add("random walk, one IMU", SINGLE, false, 1, -1, 3, 1);
  add("random walk, IMU and encoder", PLUS, false, 1, -1, 2, 1);
  add("random walk, two IMUs", MULTI, false, 2, -1, 2, 1);
  add("random walk, static start", PLUS, false, 1, 1, 2, 1);
  return v;
}

void filter_thread(mc::MC& m) {
  static std::vector<Plan> all = plans(m.thorough);
  int which = m.choose((int)all.size(), "set-up"), mode = m.choose(4, "owner");
  bool spread = m.flag("the threads pause between their calls");
  static std::map<int, std::pair<Plan, std::unique_ptr<Allowed>>> cache;
  auto& ent = cache[which * 4 + mode];
  if (!ent.second) {
    ent.first = all[which];
    ent.first.clear = mode & 1;
    ent.first.patient = !(mode & 2);
    ent.second.reset(new Allowed(ent.first));
  }
  const Plan& p = ent.first;
  m.count(mc::fmt("%s%s%s", p.name.c_str(), p.clear ? ", reset" : "", p.patient ? "" : ", destroyed at once"));
  struct Shared {
    std::vector<GBuf<ImuMeasurementPtr>> bi;
    GBuf<ImuMeasurementPtr> bg;
    GBuf<AngularVelocityMeasurementPtr> be;
    std::unique_ptr<ImuAngVelEKF> f;
    std::pair<std::shared_ptr<std::queue<ImuMeasurementPtr>>, std::shared_ptr<std::mutex>> out;
    std::vector<ImuMeasurementPtr> got;
  };
  auto sh = std::make_shared<Shared>();
  sh->bi.resize(p.nimu);
  auto* s = sh.get();
  int threads = (int)p.producers.size();
  int preemptions = m.thorough ? 3 - (threads > 2) : threads > 2 ? !p.patient : p.clear ? 1 + (which == 0 && !p.patient) : 1 + (which == 0 || !p.patient);
  preemptions -= spread;
  std::string cfg = config(p).file();
  auto step = [spread] { conc::progress(); if (spread) conc::yield(); };
  conc::run(m, std::max(0, preemptions), [&m, s, &p, &cfg, step] {
    s->f.reset(new ImuAngVelEKF(cfg));
    if (p.corr != ANGVEL) for (auto& b : s->bi) s->f->add_imu_correction(b.q, b.m);
    if (p.corr == ANGVEL || p.corr == PLUS) s->f->add_ang_vel_correction(s->be.q, s->be.m);
    if (p.gyro_prop) s->f->add_gyro_propagate(s->bg.q, s->bg.m);
    s->out = s->f->get_filtered_imu_data_buffer_and_mutex_ptr();
    auto push = [s](int q, const S& x) {
      auto go = [](auto& b, auto meas) { b.m->lock(); b.q->push(meas); b.m->unlock(); };
      if (q == QE) go(s->be, angvel(x.t, x.w));
      else go(q == QG ? s->bg : s->bi[q - QI], imu(x.t, x.w, x.a, x.q));
    };
    for (auto& pr : p.producers) for (int i = 0; i < p.before; i++) push(pr.first, pr.second[i]);
    s->f->StartImuFilterThread();
    std::vector<std::thread> th;
    for (auto& pr : p.producers)
      th.emplace_back([&pr, &p, push, step] {
        for (size_t i = p.before; i < pr.second.size(); i++) { push(pr.first, pr.second[i]); step(); }
      });
    th.emplace_back([s, &p, step] {
      for (int i = 0; i < p.reads; i++) {
        s->out.second->lock();
        if (!s->out.first->empty()) { s->got.push_back(s->out.first->front()); s->out.first->pop(); }
        s->out.second->unlock();
        step();
      }
    });
    if (p.clear) { conc::yield(); s->f->clear(); step(); }
    if (p.patient) {
      for (auto& t : th) t.join();
      conc::settle();                    // until the filter thread finds nothing more to do
    }
    s->f.reset();
    if (!p.patient) for (auto& t : th) t.join();
    while (!s->out.first->empty()) { s->got.push_back(s->out.first->front()); s->out.first->pop(); }
  });
  std::vector<double> ts;
  for (auto& g : s->got) ts.push_back(g->get_time());
  std::vector<size_t> left;
  for (auto& pr : p.producers) left.push_back(pr.first == QG ? s->bg.q->size() : pr.first == QE ? s->be.q->size() : s->bi[pr.first - QI].q->size());
  std::string key = Allowed::bucket(ts, left);
  m.state(mc::hash_mix(which * 4 + mode, mc::fnv(key.data(), key.size())));
  auto& out = ent.second->out;
  auto it = out.find(key);
  m.check(it != out.end(), "outcome", p.name + ": the filtered times and left-over samples match no order of the same calls: " + key);
  if (p.gyro_prop) {
    std::string why;
    bool ok = false;
    for (auto& r : it->second) {
      bool all_ok = true;
      for (size_t i = 0; i < r.read.size() && all_ok; i++) {
        auto& g = *s->got[i];
        all_ok = near(g.get_angular_velocity(), r.read[i].w, 1e-9, 1e-10) && near(g.get_lin_acc(), r.read[i].a, 0, 1e-12);
        if (!all_ok) why = mc::fmt("filtered rate %zu is [%s], expected for example [%s]", i, ms(g.get_angular_velocity().transpose()).c_str(), ms(r.read[i].w.transpose()).c_str());
      }
      if (all_ok) { ok = true; break; }
    }
    m.check(ok, "values", p.name + ": no order of the same calls gives these filtered samples: " + why);
  }
  m.validated();
}

// the same filter inside an estimator
void in_estimator(mc::MC& m) {
  int mode = m.choose(3, "owner");         // only destroy; reset as well; run the estimator on the filtered samples
  struct Shared {
    GBuf<ImuMeasurementPtr> bi;
    GBuf<AngularVelocityMeasurementPtr> be;
    std::unique_ptr<InekfEstimator> e;
    std::pair<std::shared_ptr<std::queue<ImuMeasurementPtr>>, std::shared_ptr<std::mutex>> out;
    std::vector<double> got;
  };
  m.count(mode == 0 ? "in an estimator, destroyed at once" : mode == 1 ? "in an estimator, reset" : "in an estimator, feeding it");
  auto sh = std::make_shared<Shared>();
  auto* s = sh.get();
  Plan p;
  p.corr = PLUS;
  p.win = -1;
  p.gyro_prop = false;
  std::string cfg = config(p).file();
  ImuCfg ic;
  ic.static_init = false;
  EstCfg ec;
  std::string icf = ic.file(), ecf = ec.file();
  std::vector<double> used;
  conc::run(m, m.thorough ? 3 : 2, [s, mode, &cfg, &icf, &ecf] {
    s->e.reset(new InekfEstimator(ErrorType::RightInvariant, ecf));
    s->out = s->e->add_imu_ang_vel_ekf(s->bi.q, s->bi.m, s->be.q, s->be.m, cfg);
    s->e->add_imu_propagation(s->out.first, s->out.second, icf);
    auto push = [s](int i) {
      S x = sample(QI, i);
      s->bi.m->lock(); s->bi.q->push(imu(x.t, x.w, x.a, x.q)); s->bi.m->unlock();
      conc::progress();
    };
    push(0);
    std::thread th([push] { push(1); push(2); });
    auto tick = [s] {
      if (s->e->is_enabled()) s->e->RunOnce();
      else if (s->e->BiasInitialized()) s->e->InitState();
      else s->e->InitBias();
      conc::progress();
      conc::yield();
    };
    if (mode == 2) for (int i = 0; i < 5; i++) tick();
    if (mode == 1) { tick(); conc::yield(); s->e->clear(); tick(); }
    if (mode == 0) conc::yield();
    auto q = s->e->get_robot_state_queue_ptr();
    s->e.reset();
    th.join();
    while (!q->empty()) { s->got.push_back(q->front()->get_time()); q->pop(); }
    while (!s->out.first->empty()) { s->got.push_back(s->out.first->front()->get_time()); s->out.first->pop(); }
  });
  double last = 0;
  for (double t : s->got) {
    m.check(t >= last, "order", "filtered samples or the states made from them are out of order");
    last = t;
    bool known = false;
    for (int i = 0; i < 3; i++) known = known || t == sample(QI, i).t;
    m.check(known, "time", mc::fmt("a state or filtered sample carries the time %.6f of no sample", t));
  }
  uint64_t h = mode;
  for (double t : s->got) h = mc::hash_d(h, t);
  m.state(h);
  m.validated();
}

// never started, or started with nothing to do
void idle(mc::MC& m) {
  bool start = m.flag("started"), clear = m.flag("reset"), two = m.flag("twice");
  Plan p;
  p.gyro_prop = true;
  std::string cfg = config(p).file();
  struct Shared { GBuf<ImuMeasurementPtr> bi, bg; std::unique_ptr<ImuAngVelEKF> f; };
  auto sh = std::make_shared<Shared>();
  auto* s = sh.get();
  conc::run(m, m.thorough ? 5 : 4, [s, start, clear, two, &cfg] {
    for (int i = 0; i < 1 + two; i++) {
      s->f.reset(new ImuAngVelEKF(cfg));
      s->f->add_imu_correction(s->bi.q, s->bi.m);
      s->f->add_gyro_propagate(s->bg.q, s->bg.m);
      if (start) s->f->StartImuFilterThread();
      if (clear) s->f->clear();
      s->f.reset();
    }
  });
  m.count("no samples");
  m.validated();
}

void program(mc::MC& m) {
  int part = m.choose(3, "part");
  if (part == 0) filter_thread(m);
  else if (part == 1) in_estimator(m);
  else idle(m);
}
}  // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 3;
  o.dynamic = true;
  o.what = "one schedule of the filter thread, a producer per queue, a reader of the filtered samples and the owner";
  o.bounds = "10 combinations of propagation, corrections and start-up; 2-3 samples per source, 2 reads; the owner resets or not, and destroys at once or after everything is used up; every schedule "
             "with at most 2 (thorough 3) preemptions for the first combination and for destruction at once, 1 (3) for other combinations of two producers or with a reset, and 0-1 (2) for three producers, one fewer when the "
             "threads pause between their calls; the filter inside an estimator (destroyed, reset, feeding it) with at "
             "most 2 (3) preemptions; filters without samples, started or not, with at most 4 (5)";
  return o;
}
MC_MAIN(options)

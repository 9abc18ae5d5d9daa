// C13: sensors, filter, reset, readers and the ROS threads at the same time.
#include <unsupported/Eigen/MatrixFunctions>
#include <atomic>
#include <thread>
#include "rossrc.hpp"
#include "conc.hpp"
#include "interleave.hpp"
using namespace model;
using rossrc::Source;

namespace {
ImuS I(double t, int k) {
  return {t, V3(0.3 * std::sin(k + 1), -0.2 * std::cos(2.0 * k), 0.15 + 0.05 * k), V3(0.4 * std::cos(k), 0.3 - 0.1 * k, 9.6 + 0.2 * std::sin(3.0 * k)), {}};
}
VelS Vs(double t, int k) { return {t, V3(0.5 + 0.1 * k, -0.3 + 0.07 * k, 0.1 * std::sin(k))}; }
LegS Ls(double t, int k) {
  LegS l;
  l.t = t;
  for (int i = 0; i < 2; i++) {
    l.c.push_back(i == 0 ? true : k % 2 == 0);
    l.pos.push_back(V3(0.3 - 0.5 * i, 0.2 * (i ? 1 : -1) + 0.01 * k, -0.4 + 0.02 * k));
    M3 J;
    J << 0.2, 0.1 * i, 0.05, -0.1, 0.3, 0.02 * k, 0.04, 0.1, 0.25;
    l.J.push_back(J);
  }
  l.iv = V3(0.2, 0.1 * k, -0.05);
  l.ig = V3(0.1, 0.2, -0.3);
  return l;
}
SensorOp imu_op(double t, int k) { SensorOp o{SensorOp::IMU}; o.i = I(t, k); return o; }
SensorOp corr_op(const Cfg& c, int which, double t, int k) {
  SensorOp o{SensorOp::CORR};
  o.k = which;
  if (c.corr[which].legs) o.l = Ls(t, k); else o.v = Vs(t, k + 3 * which);
  return o;
}
SensorOp wait_op() { return SensorOp{SensorOp::WAIT_RESET}; }

enum { RUNNING, START, BIAS, RESET, SCENARIOS };
const char* kScen[] = {"running", "start-up", "bias start-up", "reset"};
enum { NONE, VEL, LEGS, VEL_LEGS, VEL_VEL, LEGS_VEL, SETS };
const char* kSet[] = {"no correction", "velocity", "legs", "velocity and legs", "two velocities", "legs and velocity"};

Program make(int scen, int set, bool left, int size) {
  Program p;
  Cfg& c = p.cfg;
  c.left = left;
  auto add = [&](bool legs) {
    Cfg::Corr x;
    x.legs = legs;
    c.corr.push_back(x);
  };
  if (set == VEL) add(false);
  if (set == LEGS) add(true);
  if (set == VEL_LEGS) { add(false); add(true); }
  if (set == VEL_VEL) { add(false); add(false); }
  if (set == LEGS_VEL) { add(true); add(false); }
  int K = (int)c.corr.size();
  if (scen == BIAS) { c.imu.static_init = true; c.imu.init_size = 2; }
  // no measurement is late relative to the others by more than the gates allow, except the first correction
  bool started = scen == RUNNING || scen == RESET;
  if (started) {
    p.before.push_back(imu_op(1.0, 0));
    for (int k = 0; k < K; k++) p.before.push_back(corr_op(c, k, 1.0, 0));
    p.ticks_before = 2;     // bias flag, initial state
  } else if (scen == START) {
    p.ticks_before = 1;
  }
  int n_imu = (scen == BIAS ? 4 : scen == RESET ? 1 : scen == RUNNING ? 3 : 3) + (size > 1);
  int n_corr = scen == RESET ? 1 : 2;
  std::vector<SensorOp> s1;
  for (int i = 0; i < n_imu; i++) s1.push_back(imu_op(1.1 + 0.1 * i, 1 + i));
  if (scen == RESET) {
    s1.push_back(wait_op());
    for (int i = 0; i < 2; i++) s1.push_back(imu_op(5.0 + 0.1 * i, 5 + i));
  }
  p.sensors.push_back(s1);
  for (int k = 0; k < K; k++) {
    std::vector<SensorOp> s;
    for (int i = 0; i < n_corr; i++) s.push_back(corr_op(c, k, 1.04 + 0.1 * i + 0.02 * k, 1 + i));
    if (scen == RESET) {
      s.push_back(wait_op());
      s.push_back(corr_op(c, k, 5.03 + 0.01 * k, 7));
    }
    p.sensors.push_back(s);
  }
  int n = scen == RUNNING ? 3 : scen == START ? 3 : scen == BIAS ? 5 : 1;
  for (int i = 0; i < n; i++) p.filter.push_back(TICK);
  if (scen == RESET) {
    p.filter.push_back(CLEAR);
    p.filter.push_back(TICK);
    p.filter.push_back(TICK);
  }
  p.filter.push_back(JOIN);
  for (int i = 0; i < n_imu + n_corr + 2; i++) p.filter.push_back(TICK);   // everything that waits is used up
  p.reads = 2;
  p.key = mc::fmt("%d.%d.%d.%d", scen, set, (int)left, size);
  return p;
}

struct Prepared {
  Program p;
  std::unique_ptr<Explorer> e;
};
const Prepared& prepared(int scen, int set, bool left, int size) {
  static std::map<std::string, Prepared> cache;
  static pid_t owner = 0;
  if (owner != getpid()) { cache.clear(); owner = getpid(); }
  std::string k = mc::fmt("%d.%d.%d.%d", scen, set, (int)left, size);
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  Prepared& r = cache[k];
  r.p = make(scen, set, left, size);
  r.e.reset(new Explorer(r.p));
  r.e->run();
  return r;
}

void do_push(Real& r, const SensorOp& o, bool locked) {
  auto go = [&](auto& buf, auto meas) {
    if (locked) buf.m->lock();
    buf.q->push(meas);
    if (locked) buf.m->unlock();
  };
  if (o.kind == SensorOp::IMU) go(r.ib, imu(o.i.t, o.i.w, o.i.a, o.i.q));
  else if (r.c.corr[o.k].legs) go(r.lb[o.k], std::make_shared<TestLegs>(o.l.t, o.l.c, o.l.pos, o.l.J, o.l.iv, o.l.ig));
  else go(r.vb[o.k], vel(o.v.t, o.v.v));
}
void tick(InekfEstimator& e) {
  if (e.is_enabled()) e.RunOnce();
  else if (e.BiasInitialized()) e.InitState();
  else e.InitBias();
}
double look(const RobotState& s) {       // a reader uses everything in the state
  return s.get_X().sum() + s.get_P().sum() + s.get_theta().sum() + s.get_time() + s.get_propagate_time() +
         s.get_continuous_noise_covariance().sum() + s.get_world_velocity()(0) + s.get_body_velocity()(1);
}

void whole_estimator(mc::MC& m) {
  int set = m.choose(SETS, "corrections"), scen = m.choose(SCENARIOS, "scenario");
  static const char* only = getenv("MC_ONLY");   // development aid
  if (only && atoi(only) % 100 != set * 10 + scen) return;
  m.count(mc::fmt("%s, %s", kSet[set], kScen[scen]));
  bool spread = m.flag("the threads pause between their calls");
  bool left = set == VEL && scen == RUNNING && m.flag("left-invariant");
  const Prepared& pr = prepared(scen, set, left, m.thorough ? 2 : 1);
  const Program& p = pr.p;
  struct Shared {
    std::unique_ptr<Real> r;
    std::vector<std::shared_ptr<RobotState>> got;
    std::atomic<bool> reset{false};
    double sum = 0;
  };
  int K = (int)p.sensors.size() - 1, preemptions = 2;
  if (spread) preemptions--;
  if (K == 0) preemptions++;
  if (K == 2 && (set != VEL_LEGS || scen != RUNNING)) preemptions--;
  if (m.thorough) preemptions++;
  if (preemptions > 4) preemptions = 4;
  auto step = [spread] { conc::progress(); if (spread) conc::yield(); };
  auto sh = std::make_shared<Shared>();
  conc::run(m, preemptions, [&m, sh, &p, step] {
    sh->r.reset(new Real(p.cfg));
    Real& r = *sh->r;
    for (auto& o : p.before) do_push(r, o, false);
    for (int i = 0; i < p.ticks_before; i++) tick(r.est);
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.sensors.size(); i++)
      th.emplace_back([sh, &p, i, step] {
        for (auto& o : p.sensors[i]) {
          if (o.kind == SensorOp::WAIT_RESET) {
            while (!sh->reset) conc::yield();
          } else {
            do_push(*sh->r, o, true);
          }
          step();
        }
      });
    auto q = r.est.get_robot_state_queue_ptr();
    auto qm = r.est.get_robot_state_queue_mutex_ptr();
    th.emplace_back([sh, &p, q, qm, step] {
      for (int i = 0; i < p.reads; i++) {
        std::shared_ptr<RobotState> s;
        qm->lock();
        if (!q->empty()) { s = q->front(); q->pop(); }
        qm->unlock();
        if (s) { sh->sum += look(*s); sh->got.push_back(s); }
        step();
      }
    });
    for (auto op : p.filter) {
      if (op == TICK) tick(r.est);
      else if (op == CLEAR) { r.est.clear(); sh->reset = true; }
      else for (auto& t : th) t.join();
      step();
    }
    while (!q->empty()) { sh->got.push_back(q->front()); q->pop(); }
  });
  // compare with what the model allows
  std::vector<std::pair<double, double>> ts;
  for (auto& s : sh->got) ts.push_back({s->get_time(), s->get_propagate_time()});
  std::vector<size_t> left_over{sh->r->ib.q->size()};
  for (size_t k = 0; k < p.cfg.corr.size(); k++) left_over.push_back(p.cfg.corr[k].legs ? sh->r->lb[k].q->size() : sh->r->vb[k].q->size());
  std::string key = Explorer::bucket(ts, left_over), why;
  m.state(mc::fnv(key.data(), key.size(), mc::fnv(p.key.data(), p.key.size())));
  // identical results need not be compared twice
  uint64_t fp = mc::fnv(p.key.data(), p.key.size(), mc::fnv(key.data(), key.size()));
  auto exact = [&](const RobotState& s) {
    fp = hash_mat(fp, s.get_X()); fp = hash_mat(fp, s.get_P()); fp = hash_mat(fp, s.get_theta());
    fp = hash_mat(fp, s.get_continuous_noise_covariance());
    double t[2] = {s.get_time(), s.get_propagate_time()};
    fp = mc::fnv(t, sizeof t, fp);
  };
  for (auto& s : sh->got) exact(*s);
  exact(sh->r->est.get_state());
  fp = mc::hash_mix(fp, sh->r->est.is_enabled());
  static std::unordered_set<uint64_t> good;
  auto it = pr.e->out.find(key);
  bool ok = good.count(fp);
  if (ok) {
  } else if (it == pr.e->out.end()) {
    why = "the published times and left-over measurements match no order of the same calls: " + key;
  } else {
    for (auto& o : it->second) {
      std::string e;
      for (size_t i = 0; i < o.read.size() && e.empty(); i++) e = diff_state(*sh->got[i], o.read[i].b, o.read[i].t, o.read[i].tprop, true);
      if (e.empty()) e = diff_state(sh->r->est.get_state(), o.b, o.t, o.tp, true);
      if (e.empty() && sh->r->est.is_enabled() != o.enabled) e = "the filter is in the wrong mode";
      if (e.empty()) { ok = true; good.insert(fp); break; }
      why = "no order of the same calls gives these estimates: " + e;
    }
  }
  m.check(ok, "outcome", mc::fmt("%s, %s: ", kScen[scen], kSet[set]) + why);
  m.validated();
}

void ros_publisher(mc::MC& m) {
  m.count("ROS publisher");
  struct Shared {
    ros::stub::World w;
    ros::NodeHandle nh;
    std::shared_ptr<std::queue<std::shared_ptr<RobotState>>> q = std::make_shared<std::queue<std::shared_ptr<RobotState>>>();
    std::shared_ptr<std::mutex> mu = std::make_shared<std::mutex>();
    std::unique_ptr<ros_wrapper::ROSPublisher> pub;
    std::atomic<int> poses{0};
    std::vector<geometry_msgs::PoseWithCovarianceStamped> pose;   // written by the pose thread only
    std::vector<nav_msgs::Path> path;                             // written by the path thread only
  };
  static std::string cfg;
  if (cfg.empty()) {
    cfg = scratch() + "/rospub.yaml";
    std::ofstream(cfg) << "publishers:\n  pose_publish_topic: \"/pose\"\n  path_publish_topic: \"/path\"\n  pose_frame: \"/world\"\n  pose_publish_rate: 100\n  path_publish_rate: 60\n";
  }
  auto sh = std::make_shared<Shared>();
  ros::stub::world() = &sh->w;
  sh->w.controlled = false;
  auto* s = sh.get();
  sh->w.sink = [s](const std::string& topic, std::any msg) {
    conc::Untracked u;
    if (topic == "/pose") { s->pose.push_back(std::any_cast<geometry_msgs::PoseWithCovarianceStamped>(msg)); s->poses++; }
    else s->path.push_back(std::any_cast<nav_msgs::Path>(msg));
  };
  ros::stub::rate_hook() = [] { conc::yield(); };
  const int n = 3;
  bool two = m.flag("two filter threads' worth of states before the threads start");
  conc::run(m, m.thorough ? 4 : 3, [s, n, two] {
    s->pub.reset(new ros_wrapper::ROSPublisher(&s->nh, s->q, s->mu, cfg));
    auto push = [&](int i) {
      auto st = std::make_shared<RobotState>();
      st->set_time(10 + i);
      st->set_position(V3(i + 1, 2 * i, -i));
      s->mu->lock();
      s->q->push(st);
      s->mu->unlock();
    };
    int i = 0;
    if (two) { push(i++); push(i++); }
    s->pub->StartPublishingThread();
    for (; i < n; i++) { push(i); conc::progress(); }
    while (s->poses < n) conc::yield();
    s->w.down = true;
    s->pub.reset();
  });
  m.check((int)s->pose.size() == n, "poses", mc::fmt("%d poses published for %d states", (int)s->pose.size(), n));
  for (int i = 0; i < n; i++)
    m.check(s->pose[i].header.seq == (uint32_t)i && near(s->pose[i].header.stamp.toSec(), 10 + i) && near(s->pose[i].pose.pose.position.x, i + 1.0),
            "pose order", mc::fmt("pose %d is not the state that was waiting", i));
  size_t last = 0;
  for (auto& p : s->path) {
    m.check(p.poses.size() >= last && p.poses.size() <= (size_t)n && !p.poses.empty(), "path", "a published path is shorter than an earlier one, longer than the poses or empty");
    last = p.poses.size();
    for (size_t i = 0; i < last; i++)
      m.check(p.poses[i].header.seq == i && near(p.poses[i].pose.position.x, i + 1.0), "path order", "a published path does not consist of the poses so far");
  }
  m.check(s->q->empty(), "left", "a state was left waiting");
  m.state(mc::hash_mix(s->path.size(), last));
  ros::stub::world() = nullptr;
  m.validated();
}

void ros_subscriber(mc::MC& m) {
  using namespace rossrc;
  m.count("ROS subscriber");
  int a = m.choose(KINDS, "kind"), b = m.choose(KINDS, "other kind");
  if (b < a) return;
  struct Shared {
    ros::stub::World w;
    ros::NodeHandle nh;
    std::unique_ptr<ros_wrapper::ROSSubscriber> sub;
    Source src[2];
    std::vector<double> times[2];
  };
  auto sh = std::make_shared<Shared>();
  auto* s = sh.get();
  ros::stub::world() = &sh->w;
  s->src[0].k = (Kind)a;
  s->src[1].k = (Kind)b;
  conc::run(m, m.thorough ? 4 : 3, [&m, s] {
    s->sub.reset(new ros_wrapper::ROSSubscriber(&s->nh));
    for (int i = 0; i < 2; i++) s->src[i].add(*s->sub, i);
    std::vector<std::thread> th;
    for (int i = 0; i < 2; i++)
      th.emplace_back([&m, s, i] {
        for (int n = 0; n < 3; n++) { s->src[i].send(m, n, 0, false); conc::progress(); }
      });
    // the consumer takes one measurement from each buffer if there is one
    for (int i = 0; i < 2; i++) {
      auto take = [&](auto q, auto mu, auto& e) {
        if (!q) return;
        mu->lock();
        if (!q->empty()) { s->times[i].push_back(q->front()->get_time()); q->pop(); }
        mu->unlock();
        conc::progress();
      };
      auto& x = s->src[i];
      take(x.imu, x.m1, x.e); take(x.vel, x.m1, x.e); take(x.av, x.m2, x.e2); take(x.leg, x.m1, x.e);
    }
    for (auto& t : th) t.join();
  });
  for (int i = 0; i < 2; i++) {
    auto& x = s->src[i];
    auto cut = [](size_t have, std::vector<Expected>& e, const char*) {
      if (have + 1 == e.size()) e.erase(e.begin());   // the consumer has the first one
    };
    if (x.imu) cut(x.imu->size(), x.e, "");
    if (x.vel) cut(x.vel->size(), x.e, "");
    if (x.leg) cut(x.leg->size(), x.e, "");
    if (x.av) cut(x.av->size(), x.e2, "");
    std::string e = x.check();
    m.check(e.empty(), "delivered", e);
    for (double t : s->times[i]) m.state(mc::hash_d(a * 16 + b, t));
  }
  s->sub.reset();
  ros::stub::world() = nullptr;
  m.validated();
}
}  // namespace

static void program(mc::MC& m) {
  static const char* only = getenv("MC_ONLY");
  int what = m.choose(3, "part");
  if (only && atoi(only) / 100 != what) return;
  if (what == 0) { whole_estimator(m); return; }
  if (what == 1) ros_publisher(m);
  else ros_subscriber(m);
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 1;
  o.dynamic = true;
  o.what = "one schedule of sensor threads, the filter thread and a reader";
  o.bounds = "one thread per sensor (3-5 IMU samples, 2-3 measurements per correction, 0-2 corrections of both kinds), the filter thread (3-9 steps, or start-up, "
             "or a reset with a new session after it) and a reader of the published states; every schedule with at most 3/2/1 preemptions for 0/1/2 corrections (2 "
             "preemptions for a running filter with velocity and legs; one fewer, but a switch at every call, when the threads pause between their calls; one more in the "
             "thorough tier); ROS publisher: 3 states, pose and path thread, at most 3 (4) preemptions; ROS subscriber: every pair of the five kinds of source, 3 "
             "messages each in two threads and a consumer, at most 3 (4) preemptions";
  return o;
}
MC_MAIN(options)

// C16: the pose log, written by the logger thread while the filter steps, is reset and is destroyed.
#include <unsupported/Eigen/MatrixFunctions>
#include <dirent.h>
#include <atomic>
#include <thread>
#include "model.hpp"
#include "conc.hpp"
using namespace model;

namespace {
ImuS I(double t, int k) {
  return {t, V3(0.3 * std::sin(k + 1), -0.2 * std::cos(2.0 * k), 0.15 + 0.05 * k), V3(0.4 * std::cos(k), 0.3 - 0.1 * k, 9.6 + 0.2 * std::sin(3.0 * k)), {}};
}
VelS Vs(double t, int k) { return {t, V3(0.5 + 0.1 * k, -0.3 + 0.07 * k, 0.1 * std::sin(k))}; }
void tick(InekfEstimator& e) {
  if (e.is_enabled()) e.RunOnce();
  else if (e.BiasInitialized()) e.InitState();
  else e.InitBias();
}
void tick(Model& m) {
  if (m.enabled) m.run_once();
  else if (m.bias_ready) m.init_state();
  else m.init_bias();
}
// the numbers of every line of a log
std::vector<std::vector<double>> numbers(const std::string& file, std::string& err) {
  std::vector<std::vector<double>> r;
  FILE* f = fopen(file.c_str(), "r");
  if (!f) { err = "a log file is missing: " + file; return r; }
  std::string text;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, n);
  fclose(f);
  if (!text.empty() && text.back() != '\n') err = "the last line of a log is not complete: " + file;
  std::stringstream ss(text);
  std::string line;
  while (std::getline(ss, line)) {
    r.emplace_back();
    const char* c = line.c_str();
    for (;;) {
      while (*c == ' ') c++;
      if (!*c) break;
      char* e;
      r.back().push_back(strtod(c, &e));
      if (e == c || (*e && *e != ' ')) { err = "a log line is not made of numbers: " + line; return r; }
      c = e;
    }
  }
  return r;
}
// the log files of one kind in the order in which they were opened: base.txt, then base_<n>.txt by n
std::vector<std::string> series(const std::string& dir, const std::string& base) {
  std::vector<std::pair<long, std::string>> v;
  DIR* d = opendir(dir.c_str());
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name;
    if (n.size() < base.size() + 4 || n.compare(0, base.size(), base) || n.compare(n.size() - 4, 4, ".txt")) continue;
    std::string mid = n.substr(base.size(), n.size() - base.size() - 4);
    if (mid.empty()) { v.push_back({-1, dir + "/" + n}); continue; }
    if (mid[0] != '_' || mid.size() < 2 || mid.find_first_not_of("0123456789", 1) != std::string::npos) continue;
    v.push_back({atol(mid.c_str() + 1), dir + "/" + n});
  }
  closedir(d);
  std::sort(v.begin(), v.end());
  std::vector<std::string> r;
  for (auto& x : v) r.push_back(x.second);
  return r;
}
void wipe(const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  std::vector<std::string> v;
  while (dirent* e = readdir(d)) if (e->d_name[0] != '.') v.push_back(dir + "/" + e->d_name);
  closedir(d);
  for (auto& f : v) ::unlink(f.c_str());
}

struct Step { double t; bool vel; };
struct Session { std::vector<Step> steps; double start; };

void program(mc::MC& m) {
  // what the filter thread does
  int kind = m.choose(4, "kind");          // schedules; reset schedules; time-stamp sequences; a long session
  int sessions, steps, preemptions;
  bool drain = false;
  if (kind == 0) { sessions = 1; steps = m.thorough ? 5 : 4; preemptions = m.thorough ? 4 : 3; }
  else if (kind == 1) {
    sessions = 2 + m.choose(2, "second reset");
    steps = sessions == 2 ? 3 : 2;
    preemptions = (m.thorough ? 4 : 3) - (sessions == 3);
  } else if (kind == 3) {
    sessions = 1 + m.choose(2, "reset");
    steps = m.thorough ? 400 : 120;
    preemptions = 0;
    drain = m.flag("the filter pauses between its calls");
  } else { sessions = 1 + m.choose(2, "reset"); steps = sessions == 2 ? 3 : m.thorough ? 6 : 5; preemptions = 0; drain = m.flag("the filter pauses between its calls"); }
  bool vel_corr = m.flag("velocity correction");
  // a rate of 8 Hz: a period of 1/8 s, exact in binary
  std::vector<Session> plan;
  double t = vel_corr ? 1700000000 : 1;
  for (int s = 0; s < sessions; s++) {
    Session x;
    x.start = t;
    for (int i = 0; i < steps; i++) {
      static const double d[] = {1.0 / 8, 1.0 / 16, 3.0 / 16, 1.0 / 32};
      int k = kind == 2 ? m.choose(m.thorough ? 4 : 3, "time to the next sample") : (i + s) % 3 == 1 ? 1 : (i + s) % 3 == 2 ? 2 : 0;
      t += d[k];
      x.steps.push_back({t, vel_corr && (i & 1)});
    }
    t += kind == 2 && m.flag("the clock continues from before") ? -1.0 / 4 : 4;
    plan.push_back(x);
  }
  struct Shared {
    Cfg c;
    std::unique_ptr<Real> r;
    std::unique_ptr<Model> ref;
    std::vector<std::vector<std::shared_ptr<RobotState>>> got;    // per session
    std::vector<size_t> initial;                                  // how many of them are initial states
  };
  auto sh = std::make_shared<Shared>();
  static std::string dir;
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    dir = scratch() + "/log.d";           // a dot in the directory is not an extension
    mkdir(dir.c_str(), 0700);
  }
  wipe(dir);
  sh->c.est.logger = true;
  sh->c.est.pose_log = dir + "/pose.txt";
  sh->c.est.vel_log = dir + "/vel";
  sh->c.est.log_rate = 8;
  if (vel_corr) {
    sh->c.corr.push_back({});
    sh->c.corr[0].legs = false;
  }
  auto* s = sh.get();
  conc::run(m, preemptions, [&m, s, &plan, drain] {
    {
      conc::Untracked u;
      s->ref.reset(new Model(s->c));
    }
    s->r.reset(new Real(s->c));
    Real& r = *s->r;
    bool first = true;
    auto q = r.est.get_robot_state_queue_ptr();
    for (auto& x : plan) {
      if (!first) {
        r.est.clear();
        conc::Untracked u;
        s->ref->clear();
      }
      first = false;
      s->got.emplace_back();
      size_t before;
      auto deliver = [&](double t, bool v, int k) {
        r.ib.q->push(imu(t, I(t, k).w, I(t, k).a));
        conc::Untracked u;
        s->ref->iq.push_back(I(t, k));
        if (v) {
          r.vb[0].q->push(vel(t - 1.0 / 64, Vs(t, k).v));
          VelS z = Vs(t, k);
          z.t = t - 1.0 / 64;
          s->ref->vq[0].push_back(z);
        }
      };
      auto step = [&] {
        tick(r.est);
        conc::progress();
        if (drain) conc::yield();
        conc::Untracked u;
        tick(*s->ref);
        while (!q->empty()) { s->got.back().push_back(q->front()); q->pop(); }
        std::string e;
        while (!s->ref->pub.empty() && e.empty()) {
          size_t i = before++;
          if (i >= s->got.back().size()) { e = "a state was not published at once"; break; }
          auto& w = s->ref->pub.front();
          e = diff_state(*s->got.back()[i], w.b, w.t, w.tprop, true);
          s->ref->pub.pop_front();
        }
        if (e.empty() && before != s->got.back().size()) e = "too many states were published";
        conc::check(m, e.empty(), "published", "logging changed what is published: " + e);
      };
      before = 0;
      deliver(x.start, s->c.corr.size() > 0, 0);
      for (int i = 0; i < 3 && !r.est.is_enabled(); i++) step();
      s->initial.push_back(s->got.back().size());
      for (size_t i = 0; i < x.steps.size(); i++) {
        deliver(x.steps[i].t, x.steps[i].vel, 1 + (int)i);
        step();
      }
    }
    s->r.reset();
  });
  // ---- the files
  auto pose = series(dir, "pose"), vw = series(dir, "vel"), vb = series(dir, "vel_body_frame");
  m.check(pose.size() == plan.size() && vw.size() == plan.size() && vb.size() == plan.size(), "files",
          mc::fmt("%zu sessions left %zu pose, %zu velocity and %zu body velocity logs", plan.size(), pose.size(), vw.size(), vb.size()));
  uint64_t h = mc::hash_mix(kind, sessions);
  for (size_t k = 0; k < plan.size(); k++) {
    std::string err;
    auto p = numbers(pose[k], err), w = numbers(vw[k], err), b = numbers(vb[k], err);
    m.check(err.empty(), "format", err);
    std::vector<std::shared_ptr<RobotState>> want;
    double l = 0;                 // a new log starts with its first state
    for (size_t i = s->initial[k]; i < s->got[k].size(); i++) {
      auto& x = s->got[k][i];
      if (x->get_time() - l >= 1.0 / 8) { want.push_back(x); l = x->get_time(); }
    }
    m.check(p.size() <= want.size() && w.size() == p.size() && b.size() == p.size(), "lines",
            mc::fmt("log %zu has %zu poses, %zu velocities and %zu body velocities for %zu states due", k, p.size(), w.size(), b.size(), want.size()));
    m.check(k + 1 < plan.size() || p.size() == want.size(), "lost", mc::fmt("the last log has %zu of %zu states due when the estimator is destroyed", p.size(), want.size()));
    for (size_t i = 0; i < p.size(); i++) {
      const RobotState& x = *want[i];
      V3 wp = x.get_X().block(0, 4, 3, 1), wv = x.get_X().block(0, 3, 3, 1);
      M3 R = x.get_X().block(0, 0, 3, 3);
      V3 bv = R.transpose() * wv;
      auto same = [](const std::vector<double>& g, double t, const V3& v) { return g.size() >= 4 && g[0] == t && g[1] == v(0) && g[2] == v(1) && g[3] == v(2); };
      m.check(p[i].size() == 8 && same(p[i], x.get_time(), wp), "pose", mc::fmt("line %zu of pose log %zu is not the time and position of the state due (%.17g)", i, k, x.get_time()));
      m.check(w[i].size() == 4 && same(w[i], x.get_time(), wv), "velocity", mc::fmt("line %zu of velocity log %zu is not the time and velocity of the state due", i, k));
      m.check(b[i].size() == 4 && b[i][0] == x.get_time() && near(V3(b[i][1], b[i][2], b[i][3]), bv, 1e-14, 1e-15), "body velocity",
              mc::fmt("line %zu of body velocity log %zu is not the time and body velocity of the state due", i, k));
      Eigen::Quaterniond qn(p[i][7], p[i][4], p[i][5], p[i][6]);
      m.check(std::fabs(qn.norm() - 1) < 1e-9 && near(qn.toRotationMatrix(), R, 1e-9, 1e-9), "orientation", mc::fmt("line %zu of pose log %zu does not hold the orientation of the state", i, k));
      h = mc::hash_d(h, p[i][0]);
    }
    h = mc::hash_mix(h, p.size());
    m.count("logged states", p.size());
    m.count("states due but dropped by a reset", want.size() - p.size());
  }
  m.state(h);
  m.validated();
}
}  // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.dynamic = true;
  o.what = "one schedule of the filter thread (construction, start-up, steps, resets, destruction) and the library's logger thread; then every log file is compared with the published states";
  o.bounds = "1 session of 4 (5) steps, every schedule with at most 3 (4) preemptions; 2 and 3 sessions with a reset in between, 3 and 2 steps each, at most 3 (4) and 2 (3) preemptions; "
             "all sequences of 5 (6) sample times, or 3 in each of 2 sessions, from 3 (4) increments around the logging period without preemption; 1 and 2 sessions of 120 (400) steps; each with and without velocity corrections";
  return o;
}
MC_MAIN(options)

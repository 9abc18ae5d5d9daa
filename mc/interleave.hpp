// Explicit-state exploration of the reference estimator with concurrent sensors and readers.  Yields every
// outcome (states taken by the reader, left-over queue contents, final estimate) that some interleaving of
// pushes, pops and filter sub-steps allows.  The multi-threaded runs of the library are compared with this set.
#pragma once
#include <array>
#include <mutex>
#include "model.hpp"

namespace model {
struct SensorOp {
  enum { IMU, CORR, WAIT_RESET } kind;
  int k = 0;
  ImuS i{};
  VelS v{};
  LegS l{};
};
enum FilterOp { TICK, CLEAR, JOIN };
struct Program {
  Cfg cfg;
  std::vector<SensorOp> before;          // pushed before the threads start
  int ticks_before = 0;
  std::vector<std::vector<SensorOp>> sensors;
  std::vector<FilterOp> filter;          // the filter thread; JOIN waits for all others to end
  int reads = 0;                         // attempts of the reader
  std::string key;
};
struct Outcome {
  std::vector<Pub> read;                 // what the reader got plus what was left at the end
  std::vector<size_t> left;
  Belief b;
  double t, tp;
  bool enabled;
};

inline uint64_t hash_mat(uint64_t h, const Mat& a) { return a.size() ? mc::fnv(a.data(), a.size() * sizeof(double), h) : h; }
inline uint64_t hash_belief(uint64_t h, const Belief& b) {
  h = hash_mat(h, b.R); h = hash_mat(h, b.v); h = hash_mat(h, b.p); h = hash_mat(h, b.bg); h = hash_mat(h, b.ba);
  for (auto& d : b.d) h = hash_mat(h, d);
  return hash_mat(h, b.P);
}

// A push matters only when the filter next looks at that queue, and pushes of one sensor come in order.  So
// instead of interleaving every push with every filter step, the explorer chooses, each time the filter
// accesses a queue, how many further measurements have arrived in it by then.  Sensor 0 feeds the IMU queue,
// sensor k + 1 correction k.  A reader matters only to what a reset still finds in the state queue.
struct Explorer {
  const Program& p;
  struct S {
    Model m;
    std::vector<int> pc;                 // measurements pushed so far
    size_t fc = 0;
    int fs = 0, mode = 0;
    bool n = false, reset = false;
    std::vector<Pub> read;
    uint64_t rh = 0;
    explicit S(const Cfg& c) : m(c) {}
  };
  std::unordered_set<uint64_t> seen;
  uint64_t states = 0, transitions = 0;
  std::map<std::string, std::vector<Outcome>> out;
  std::unordered_set<uint64_t> out_seen;
  explicit Explorer(const Program& prog) : p(prog) {}

  static uint64_t mhash(const S& s) {
    uint64_t h = 1469598103934665603ull;
    for (int x : s.pc) h = mc::hash_mix(h, x);
    h = mc::hash_mix(h, s.fc * 1000003 + s.fs * 1009 + s.mode * 101 + s.n * 3 + s.reset * 5);
    h = mc::hash_mix(h, s.rh);
    auto d = [&](double x) { h = mc::fnv(&x, sizeof x, h); };
    d(s.m.t); d(s.m.tp);
    h = hash_belief(h, s.m.b);
    h = hash_mat(h, s.m.body_w);
    h = mc::hash_mix(h, s.m.iq.size()); for (auto& x : s.m.iq) d(x.t);
    for (auto& q : s.m.vq) { h = mc::hash_mix(h, q.size()); for (auto& x : q) d(x.t); }
    for (auto& q : s.m.lq) { h = mc::hash_mix(h, q.size()); for (auto& x : q) d(x.t); }
    h = mc::hash_mix(h, s.m.prev ? 1 : 0); if (s.m.prev) d(s.m.prev->t);
    h = mc::hash_mix(h, s.m.enabled * 2 + s.m.bias_ready);
    h = mc::hash_mix(h, s.m.bias_samples.size());
    h = hash_mat(h, s.m.bg0); h = hash_mat(h, s.m.ba0);
    for (int x : s.m.con.legs) h = mc::hash_mix(h, x);
    h = mc::hash_mix(h, s.m.pub.size());
    for (auto& x : s.m.pub) { d(x.t); d(x.tprop); h = hash_belief(h, x.b); }
    return h;
  }
  void take(S& s) const {
    auto& x = s.m.pub.front();
    s.rh = hash_belief(mc::hash_mix(s.rh, 77), x.b);
    s.read.push_back(x);
    s.m.pub.pop_front();
  }
  static void push(Model& m, const SensorOp& o) {
    if (o.kind == SensorOp::IMU) m.iq.push_back(o.i);
    else if (o.kind == SensorOp::CORR) { if (m.c.corr[o.k].legs) m.lq[o.k].push_back(o.l); else m.vq[o.k].push_back(o.v); }
  }
  bool arrive(S& s, int sensor) const {      // one more measurement of that sensor
    int& pc = s.pc[sensor];
    auto& ops = p.sensors[sensor];
    while (pc < (int)ops.size() && ops[pc].kind == SensorOp::WAIT_RESET && s.reset) pc++;
    if (pc >= (int)ops.size() || ops[pc].kind == SensorOp::WAIT_RESET) return false;
    push(s.m, ops[pc++]);
    return true;
  }
  // the filter accesses the queue of that sensor after 0, 1, ... further arrivals
  void at_queue(const S& s, int sensor, std::vector<S>& nx, const std::function<bool(S&)>& act) const {
    S x = s;
    do {
      nx.push_back(x);
      if (!act(nx.back())) nx.pop_back();
    } while (arrive(x, sensor));
  }
  static void end(S& t) { t.fc++; t.fs = 0; t.mode = 0; t.n = false; }
  void filter(const S& s, std::vector<S>& nx) const {
    int K = (int)p.cfg.corr.size();
    FilterOp op = p.filter[s.fc];
    if (op == JOIN) {
      nx.push_back(s);
      for (size_t i = 0; i < p.sensors.size(); i++) while (arrive(nx.back(), i)) {}
      end(nx.back());
      return;
    }
    if (op == CLEAR) {
      if (s.fs <= K) {
        at_queue(s, s.fs, nx, [&](S& t) {
          if (t.fs == 0) t.m.iq.clear(); else { t.m.vq[t.fs - 1].clear(); t.m.lq[t.fs - 1].clear(); }
          t.fs++;
          return true;
        });
        return;
      }
      for (int r = 0; r <= p.reads && r <= (int)s.m.pub.size(); r++) {   // what the reader had taken by now
        nx.push_back(s);
        S& t = nx.back();
        for (int i = 0; i < r; i++) take(t);
        auto iq = t.m.iq; auto vq = t.m.vq; auto lq = t.m.lq;
        t.m.clear();
        t.m.iq = iq; t.m.vq = vq; t.m.lq = lq;
        t.reset = true;
        end(t);
      }
      return;
    }
    int mode = s.fs ? s.mode : s.m.enabled ? 1 : s.m.bias_ready ? 2 : 3;
    if (mode == 3) { at_queue(s, 0, nx, [&](S& t) { t.m.init_bias(); end(t); return true; }); return; }
    if (s.fs > K) {
      nx.push_back(s);
      S& t = nx.back();
      if (mode == 2) t.m.init_end();
      else if (t.n) t.m.pub.push_back({t.m.b, t.m.t, t.m.tp});
      end(t);
      return;
    }
    at_queue(s, s.fs, nx, [&](S& t) {
      t.mode = mode;
      int k = t.fs - 1;
      if (mode == 1) {
        if (k < 0) t.n = t.m.propagate();
        else t.n = (p.cfg.corr[k].legs ? t.m.correct_leg(k) : t.m.correct_vel(k)) || t.n;
      } else if (k < 0) {
        if (!t.m.init_begin()) { end(t); return true; }
      } else {
        if (!t.m.init_ready(k)) return false;     // it waits
        t.m.init_corr(k);
      }
      t.fs++;
      return true;
    });
  }
  void run() {
    S s0(p.cfg);
    s0.pc.assign(p.sensors.size(), 0);
    for (auto& o : p.before) push(s0.m, o);
    for (int i = 0; i < p.ticks_before; i++) {
      if (s0.m.enabled) s0.m.run_once();
      else if (s0.m.bias_ready) s0.m.init_state();
      else s0.m.init_bias();
    }
    std::vector<S> st{s0};
    seen.insert(mhash(s0));
    while (!st.empty()) {
      S s = std::move(st.back());
      st.pop_back();
      states++;
      if (s.fc >= p.filter.size()) { finish(s); continue; }
      std::vector<S> nx;
      filter(s, nx);
      if (nx.empty()) { fprintf(stderr, "reference model deadlock\n"); abort(); }
      for (auto& x : nx) {
        transitions++;
        if (seen.insert(mhash(x)).second) st.push_back(std::move(x));
      }
    }
    seen.clear();
    out_seen.clear();
  }
  static std::string bucket(const std::vector<std::pair<double, double>>& t, const std::vector<size_t>& left) {
    std::string k;
    for (auto& x : t) k += mc::fmt("%.6f/%.6f ", x.first, x.second);
    for (auto x : left) k += mc::fmt("|%d", (int)x);
    return k;
  }
  void finish(S& s) {
    while (!s.m.pub.empty()) take(s);
    Outcome o;
    o.read = s.read;
    o.left.push_back(s.m.iq.size());
    for (size_t k = 0; k < p.cfg.corr.size(); k++) o.left.push_back(p.cfg.corr[k].legs ? s.m.lq[k].size() : s.m.vq[k].size());
    o.b = s.m.b; o.t = s.m.t; o.tp = s.m.tp; o.enabled = s.m.enabled;
    uint64_t h = hash_belief(s.rh, o.b);
    for (auto x : o.left) h = mc::hash_mix(h, x);
    h = mc::hash_mix(h, o.enabled);
    if (!out_seen.insert(h).second) return;
    std::vector<std::pair<double, double>> ts;
    for (auto& x : o.read) ts.push_back({x.t, x.tprop});
    out[bucket(ts, o.left)].push_back(o);
  }
};
}  // namespace model

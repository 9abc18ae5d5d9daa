// C19: RobotState as a container of named vectors with a joint covariance and process noise.
#include "drift/math/se_k_3.h"
#include "kit.hpp"
using namespace kit;

namespace {
enum { ROT = 0, VEL = 1, POS = 2, BG = 3, BA = 4, AUG = 100, AB = 1000 };   // block names
typedef std::map<std::pair<int, int>, M3> Blocks;
struct Ref {
  M3 R = M3::Identity();
  std::map<int, V3> vec;             // by name
  std::vector<int> aug, ab;          // names, in order
  Blocks P, Q;
  double t = 0, tp = 0;
  V3 w = V3::Zero();
  bool upd = false;
  int slip = 0;
  Ref() {
    for (int k : {(int)VEL, (int)POS, (int)BG, (int)BA}) vec[k] = V3::Zero();
    for (int a : order())
      for (int b : order()) { P[{a, b}] = a == b ? M3(M3::Identity()) : M3(M3::Zero()); Q[{a, b}] = M3::Zero(); }
  }
  std::vector<int> order() const {
    std::vector<int> o = {ROT, VEL, POS};
    o.insert(o.end(), aug.begin(), aug.end());
    o.push_back(BG);
    o.push_back(BA);
    o.insert(o.end(), ab.begin(), ab.end());
    return o;
  }
  Mat X() const {
    int n = 5 + (int)aug.size();
    Mat x = Mat::Identity(n, n);
    x.block(0, 0, 3, 3) = R;
    x.block(0, 3, 3, 1) = vec.at(VEL);
    x.block(0, 4, 3, 1) = vec.at(POS);
    for (size_t i = 0; i < aug.size(); i++) x.block(0, 5 + i, 3, 1) = vec.at(aug[i]);
    return x;
  }
  Vec theta() const {
    Vec v(6 + 3 * ab.size());
    v.head(3) = vec.at(BG);
    v.segment(3, 3) = vec.at(BA);
    for (size_t i = 0; i < ab.size(); i++) v.segment(6 + 3 * i, 3) = vec.at(ab[i]);
    return v;
  }
  Mat full(const Blocks& b) const {
    auto o = order();
    int n = 3 * (int)o.size();
    Mat m(n, n);
    for (size_t i = 0; i < o.size(); i++)
      for (size_t j = 0; j < o.size(); j++) m.block(3 * i, 3 * j, 3, 3) = b.at({o[i], o[j]});
    return m;
  }
  void split(Blocks& b, const Mat& m) {
    auto o = order();
    b.clear();
    for (size_t i = 0; i < o.size(); i++)
      for (size_t j = 0; j < o.size(); j++) b[{o[i], o[j]}] = m.block(3 * i, 3 * j, 3, 3);
  }
  void grow(Blocks& b, int name, const M3& diag) {
    for (int o : order()) {
      if (o == name) continue;
      b[{name, o}] = M3::Zero();
      b[{o, name}] = M3::Zero();
    }
    b[{name, name}] = diag;
  }
};
M3 m3(int k) {
  M3 m;
  for (int i = 0; i < 9; i++) m(i) = std::sin(1.7 * k + 0.9 * i);
  return m;
}
V3 vv(int k) { return V3(k + 0.25, -0.5 * k, std::cos(k)); }
M3 rot(int k) { return quatR(k % 3 == 0 ? OV{{0.5, 0.5, -0.5, 0.5}} : k % 3 == 1 ? OV{{0, 0.6, 0, -0.8}} : OV{{0.8, 0, -0.6, 0}}); }
bool eq(const Mat& a, const Mat& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-13); }

void compare(mc::MC& m, RobotState& s, const Ref& r, const std::map<int, std::shared_ptr<int>>& ptr, const char* who = "") {
  auto bad = [&](const char* what) { m.fail(std::string(who) + what, std::string(who) + std::string(what) + " differs from the reference"); };
  if (!eq(s.get_X(), r.X())) m.fail(std::string(who) + "X", "state matrix [" + ms(s.get_X()) + "], expected [" + ms(r.X()) + "]");
  if (!eq(s.get_theta(), r.theta())) m.fail(std::string(who) + "theta", "bias vector [" + ms(s.get_theta().transpose()) + "], expected [" + ms(r.theta().transpose()) + "]");
  Mat P = r.full(r.P), Q = r.full(r.Q), X = r.X();
  if (!eq(s.get_P(), P)) bad("covariance");
  if (!eq(s.get_continuous_noise_covariance(), Q)) bad("process noise");
  if (s.get_time() != r.t || s.get_propagate_time() != r.tp) bad("time");
  if (!eq(s.get_body_angular_velocity(), r.w)) bad("angular velocity");
  if (s.get_enable_imu_bias_update() != r.upd) bad("bias-update flag");
  if (s.get_slip_flag() != r.slip) bad("slip flag");
  if (s.get_state_type() != StateType::WorldCentric) bad("state type");
  std::string d = diff_views(s);
  m.check(d.empty(), std::string(who) + "view", d);
  for (size_t i = 0; i < r.ab.size(); i++)
    if (!eq(s.get_aug_bias(5 + (int)i), r.vec.at(r.ab[i]))) bad("augmented bias");
  for (auto& p : ptr) {
    auto it = std::find(r.aug.begin(), r.aug.end(), p.first);
    if (it != r.aug.end() && p.second && *p.second != 5 + (it - r.aug.begin()))
      m.fail("column number", mc::fmt("the column number of an augmented vector is %d, it sits in column %d", *p.second, (int)(5 + (it - r.aug.begin()))));
  }
  // block-diagonal copies, appended to what is there
  Mat B = Mat::Constant(2, 2, 7), BI = B;
  s.copy_diag_X(2, B);
  s.copy_diag_Xinv(1, BI);
  int n = (int)X.cols();
  Mat W = Mat::Zero(2 + 2 * n, 2 + 2 * n);
  W.topLeftCorner(2, 2).setConstant(7);
  W.block(2, 2, n, n) = X;
  W.block(2 + n, 2 + n, n, n) = X;
  if (!eq(B, W)) bad("block-diagonal copy");
  Mat WI = Mat::Zero(2 + n, 2 + n), XI = Mat::Identity(n, n);
  WI.topLeftCorner(2, 2).setConstant(7);
  XI.block(0, 0, 3, 3) = r.R.transpose();
  for (int i = 3; i < n; i++) XI.block(0, i, 3, 1) = -(r.R.transpose() * X.block(0, i, 3, 1));
  WI.block(2, 2, n, n) = XI;
  if (!eq(BI, WI)) bad("block-diagonal inverse copy");
}

void program(mc::MC& m) {
  Ref r;
  std::unique_ptr<RobotState> s;
  std::map<int, std::shared_ptr<int>> ptr;
  int next = 0, uniq = 1;
  // --- start
  int ctor = m.choose(6, "constructor");
  if (ctor == 0) {
    s.reset(new RobotState());
  } else {
    int k = ctor >= 4 ? 0 : m.choose(3, "columns");
    r.R = rot(ctor);
    r.vec[VEL] = vv(11);
    r.vec[POS] = vv(12);
    for (int i = 0; i < k; i++) { r.aug.push_back(AUG + next); r.vec[AUG + next++] = vv(20 + i); }
    Ref fresh;
    r.split(r.P, Mat::Identity(15 + 3 * k, 15 + 3 * k));
    r.split(r.Q, Mat::Zero(15 + 3 * k, 15 + 3 * k));
    if (ctor >= 2 && ctor != 4) { r.vec[BG] = vv(3); r.vec[BA] = vv(4); }
    if (ctor == 3 || ctor == 5) r.split(r.P, full_cov(15 + 3 * k, 2.0));
    if (ctor == 1) s.reset(new RobotState(r.X()));
    else if (ctor == 2) s.reset(new RobotState(r.X(), r.theta()));
    else if (ctor == 3) s.reset(new RobotState(r.X(), r.theta(), r.full(r.P)));
    else {
      math::SEK3 g(r.X());
      if (ctor == 4) s.reset(new RobotState(g));
      else s.reset(new RobotState(g, r.theta(), r.full(r.P)));
    }
  }
  m.note(mc::fmt("constructor %d", ctor));
  compare(m, *s, r, ptr);
  std::unique_ptr<RobotState> copy;
  Ref rcopy;
  auto add = [&](bool tracked) {
    int name = AUG + next++, u = uniq++;
    V3 v = vv(u);
    M3 noise = m3(u);
    r.aug.push_back(name);
    r.vec[name] = v;
    r.grow(r.Q, name, noise);
    r.split(r.P, full_cov(3 * (int)r.order().size(), 1.0, u));
    auto p = tracked ? std::make_shared<int>(-1) : std::shared_ptr<int>();
    int col = s->add_aug_state(v, r.full(r.P), noise, p);
    m.check(col == 4 + (int)r.aug.size(), "returned column", mc::fmt("the new vector was given column %d, expected %d", col, 4 + (int)r.aug.size()));
    if (p) *p = col;
    ptr[name] = p;
  };
  auto del = [&](int i) {
    int name = r.aug[i];
    s->del_aug_state(5 + i);
    r.aug.erase(r.aug.begin() + i);
    ptr.erase(name);
  };
  int pre = m.choose(5, "vectors to start with");
  if (pre >= 1) add(true);
  if (pre >= 2) add(pre == 2);
  if (pre >= 3) add(true);
  if (pre == 4) for (int i = 0; i < 5; i++) add(i != 2);
  if (pre == 2) {          // a generic process noise, with correlations
    Mat Q = full_cov(3 * (int)r.order().size(), 0.1, 9);
    r.split(r.Q, Q);
    s->set_continuous_noise_covariance(Q);
  }
  int depth = m.thorough ? 4 : 3;
  for (int i = 0; i <= depth; i++) {
    m.step();
    compare(m, *s, r, ptr);
    if (copy) compare(m, *copy, rcopy, {}, "copy: ");
    m.state(hash_state(*s));
    if (i == depth) break;
    int na = (int)r.aug.size(), nb = (int)r.ab.size(), u = uniq++;
    // structural operations, then plain setters
    int o = m.choose(10 + 18, "operation");
    m.note(mc::fmt("operation %d", o));
    if (o == 0) add(true);
    else if (o == 1) { if (na) del(0); }
    else if (o == 2) { if (na > 1) del(na - 1); }
    else if (o == 3) { if (na > 2) del(1); }
    else if (o == 4) {
      int name = AB + next++;
      V3 v = vv(u);
      r.ab.push_back(name);
      r.vec[name] = v;
      r.grow(r.P, name, m3(u));
      s->add_aug_bias(v);
      s->add_aug_cov(m3(u));
      r.grow(r.Q, name, m3(u + 1));
      s->set_continuous_noise_covariance(r.full(r.Q));
    } else if (o == 5 || o == 6) {
      int k = o == 5 ? 0 : nb - 1;
      if (nb && (o == 5 || nb > 1)) {
        int blk = 3 + na + 2 + k;
        s->del_aug_bias(5 + k);
        s->del_aug_cov(blk + 2);
        s->del_aug_noise_cov(blk + 2);
        r.ab.erase(r.ab.begin() + k);
      }
    } else if (o == 7) {
      s->clear();
      r = Ref();
      ptr.clear();
    } else if (o == 8) {
      copy.reset(new RobotState(*s));
      rcopy = r;
    } else if (o == 9) add(false);
    else if (o == 10) { if (na) { int k = u % na; r.vec[r.aug[k]] = vv(u); s->set_aug_state(5 + k, vv(u)); } }
    else if (o == 11) { r.R = rot(u); s->set_rotation(rot(u)); }
    else if (o == 12) { r.vec[VEL] = vv(u); s->set_velocity(vv(u)); }
    else if (o == 13) { r.vec[POS] = vv(u); s->set_position(vv(u)); }
    else if (o == 14) { r.vec[BG] = vv(u); s->set_gyroscope_bias(vv(u)); }
    else if (o == 15) { r.vec[BA] = vv(u); s->set_accelerometer_bias(vv(u)); }
    else if (o == 16) { r.P[{ROT, ROT}] = m3(u); s->set_rotation_covariance(m3(u)); }
    else if (o == 17) { r.P[{VEL, VEL}] = m3(u); s->set_velocity_covariance(m3(u)); }
    else if (o == 18) { r.P[{POS, POS}] = m3(u); s->set_position_covariance(m3(u)); }
    else if (o == 19) { r.P[{BG, BG}] = m3(u); s->set_gyroscope_bias_covariance(m3(u)); }
    else if (o == 20) { r.P[{BA, BA}] = m3(u); s->set_accelerometer_bias_covariance(m3(u)); }
    else if (o == 21) { Mat P = full_cov(3 * (int)r.order().size(), 3.0, u); r.split(r.P, P); s->set_P(P); }
    else if (o == 22) { Mat Q = full_cov(3 * (int)r.order().size(), 0.5, u); r.split(r.Q, Q); s->set_continuous_noise_covariance(Q); }
    else if (o == 23) { for (int k : {(int)VEL, (int)POS}) r.vec[k] = vv(u + k); r.R = rot(u); for (int k : r.aug) r.vec[k] = vv(u + k); s->set_X(r.X()); }
    else if (o == 24) { for (int k : {(int)BG, (int)BA}) r.vec[k] = vv(u + k); for (int k : r.ab) r.vec[k] = vv(u + k); s->set_theta(r.theta()); }
    else if (o == 25) { r.t = u + 0.125; s->set_time(r.t); }
    else if (o == 26) { r.tp = u + 0.625; s->set_propagate_time(r.tp); r.w = vv(u); s->set_body_angular_velocity(r.w); }
    else if (o == 27) { r.upd = !r.upd; s->set_enable_imu_bias_update(r.upd); r.slip = u; s->set_slip_flag(u); }
  }
  m.validated();
}
}    // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 4;
  o.what = "one sequence of container edits on a real RobotState; mean, biases, covariance, process noise, all views, column numbers and a retained copy compared with a list of named vectors after each edit";
  o.bounds = "6 constructors x 0-2 constructed x 0-3 added vectors x all sequences of 3 (4) operations out of 28";
  return o;
}
MC_MAIN(options)

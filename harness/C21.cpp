// C21: measurement objects as value containers.
#include <functional>
#include "drift/measurement/contact.h"
#include "drift/measurement/joint_state.h"
#include "drift/measurement/odom.h"
#include "kit.hpp"
using namespace kit;
using namespace measurement;

namespace {
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> VX;
typedef Eigen::Matrix<bool, Eigen::Dynamic, 1> BX;
const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
const std::vector<V3> VAL = {V3(0.3, -0.2, 9.7), V3(0, 0, 0), V3(-1e-9, 3e7, 1e-300), V3(-0.0, 5, -5)};
bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
template <class A, class B>
bool same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++)
      if (!same((double)a(i, j), (double)b(i, j))) return false;
  return true;
}
struct Head {
  uint64_t seq = 0;
  double t = 0;
  std::string frame;
};
// one field-oriented view of a measurement kind: operations and a comparison with the expected fields
struct Kind {
  virtual ~Kind() {}
  virtual int ops() = 0;
  virtual void op(mc::MC& m, int k) = 0;
  virtual void compare(mc::MC& m, const char* when) = 0;
  virtual Measurement& base() = 0;
  virtual void copy_out() = 0;      // remember a copy
  virtual void compare_copy(mc::MC& m) = 0;
  Head h, hc;
  bool copied = false;
  MeasurementType type;
  void head(mc::MC& m) {
    Measurement& b = base();
    m.check(b.get_type() == type, "type", mc::fmt("type %d, expected %d", (int)b.get_type(), (int)type));
    m.check(same(b.get_time(), h.t) && same(b.header.stamp, h.t), "time", mc::fmt("time %.17g, expected %.17g", b.get_time(), h.t));
    m.check(b.header.seq == h.seq, "sequence", "wrong sequence number");
    m.check(b.header.frame_id == h.frame, "frame", "wrong frame");
  }
};
template <class T, class F>
struct KindT : Kind {
  T x;
  F f, fc;
  std::shared_ptr<T> c;
  KindT(MeasurementType t) { type = t; }
  Measurement& base() override { return x; }
  void copy_out() override {
    c = std::make_shared<T>(x);
    fc = f;
    hc = h;
    copied = true;
  }
  int ops() override { return F::OPS; }
  void op(mc::MC& m, int k) override { f.op(m, x, k); }
  void compare(mc::MC& m, const char*) override { head(m); f.compare(m, x); }
  void compare_copy(mc::MC& m) override {
    if (!copied) return;
    fc.compare(m, *c);
    m.check(same(c->get_time(), hc.t) && c->header.seq == hc.seq && c->header.frame_id == hc.frame && c->get_type() == type, "copy-header", "editing the original changed its copy's header");
    // assigning the copy back restores all fields
    T y;
    y = *c;
    fc.compare(m, y);
    m.check(same(y.get_time(), hc.t) && y.header.seq == hc.seq && y.header.frame_id == hc.frame, "assign", "assignment lost the header");
  }
};
template <class T>
struct ImuF {
  enum { OPS = 9 };
  Eigen::Matrix<T, 3, 1> w = Eigen::Matrix<T, 3, 1>::Zero(), a = w;
  Eigen::Matrix<T, 4, 1> q{1, 0, 0, 0};    // w x y z
  void op(mc::MC& m, ImuMeasurement<T>& x, int k) {
    static const double good[][4] = {{0.5, 0.5, -0.5, 0.5}, {0, 0.6, 0, -0.8}, {-1, 0, 0, 0}, {0.8, 0, -0.6, 0}};
    static const double bad[][4] = {{0, 0, 0, 0}, {1, 0.1, 0, 0}, {0.999, 0, 0, 0}, {-1, 1, 0, 0}, {NAN, 0, 0, 1}, {1, NAN, 0, 0}, {1, 0, NAN, 0},
                                    {1, 0, 0, NAN}, {INFINITY, 0, 0, 0}, {1, -INFINITY, INFINITY, 0}, {0.5, 0.5, 0.5, 0}, {2, 0, 0, 0}};
    if (k < 2) {
      V3 v = VAL[m.choose(4, "value")];
      if (k == 0) { w = v.cast<T>(); x.set_angular_velocity(w(0), w(1), w(2)); }
      else { a = v.cast<T>(); x.set_lin_acc(a(0), a(1), a(2)); }
    } else if (k == 2) {
      auto& g = good[m.choose(4, "unit quaternion")];
      for (int i = 0; i < 4; i++) q(i) = (T)g[i];
      x.set_quaternion(q(0), q(1), q(2), q(3));
    } else if (k == 3) {
      auto& b = bad[m.choose(12, "invalid quaternion")];
      bool threw = false;
      try { x.set_quaternion((T)b[0], (T)b[1], (T)b[2], (T)b[3]); } catch (const std::invalid_argument&) { threw = true; }
      m.check(threw, "accepted", mc::fmt("the quaternion [%g %g %g %g] was accepted", b[0], b[1], b[2], b[3]));
    }
  }
  void compare(mc::MC& m, const ImuMeasurement<T>& x) {
    m.check(same(x.get_angular_velocity(), w), "imu-rate", "angular velocity is not what was set");
    m.check(same(x.get_lin_acc(), a), "imu-acc", "acceleration is not what was set");
    Eigen::Matrix<T, 4, 1> g{x.get_quaternion().w(), x.get_quaternion().x(), x.get_quaternion().y(), x.get_quaternion().z()};
    m.check(same(g, q), "imu-quat", "quaternion [" + ms(g.transpose().template cast<double>()) + "] is not the stored one [" + ms(q.transpose().template cast<double>()) + "]");
    m.check(near(Mat(x.get_rotation_matrix().template cast<double>()), Mat(quatR(OV{{(double)q(0), (double)q(1), (double)q(2), (double)q(3)}})), 1e-6, sizeof(T) == 8 ? 1e-14 : 1e-6), "imu-rot", "rotation matrix does not match the quaternion");
  }
};
template <class T>
struct VelF {
  enum { OPS = 1 };
  Eigen::Matrix<T, 3, 1> v = Eigen::Matrix<T, 3, 1>::Zero();
  void op(mc::MC& m, VelocityMeasurement<T>& x, int) {
    v = VAL[m.choose(4, "value")].cast<T>();
    x.set_velocity(v(0), v(1), v(2));
  }
  void compare(mc::MC& m, const VelocityMeasurement<T>& x) {
    m.check(same(x.get_velocity(), v), "velocity", "velocity is not what was set");
    V3 d = v.template cast<double>();
    double n = std::sqrt(d(0) * d(0) + d(1) * d(1) + d(2) * d(2));
    m.check(std::fabs(x.get_vel_mag() - n) <= (sizeof(T) == 8 ? 1e-14 : 1e-6) * n, "magnitude", "speed is not the norm of the velocity");
    V3 u = x.get_vel_unit_vec().template cast<double>();
    m.check(near(Mat(u * n), Mat(d), 1e-6, sizeof(T) == 8 ? 1e-14 * (1 + n) : 1e-6 * (1 + n)), "unit", "unit vector does not match the velocity");
  }
};
template <class T>
struct AngF {
  enum { OPS = 1 };
  Eigen::Matrix<T, 3, 1> v = Eigen::Matrix<T, 3, 1>::Zero();
  void op(mc::MC& m, AngularVelocityMeasurement<T>& x, int) {
    v = VAL[m.choose(4, "value")].cast<T>();
    x.set_angular_velocity(v(0), v(1), v(2));
  }
  void compare(mc::MC& m, const AngularVelocityMeasurement<T>& x) {
    m.check(same(x.get_angular_velocity(), v), "rate", "angular velocity is not what was set");
    V3 d = v.template cast<double>();
    double n = std::sqrt(d(0) * d(0) + d(1) * d(1) + d(2) * d(2));
    m.check(std::fabs(x.get_angular_velocity_magnitude() - n) <= (sizeof(T) == 8 ? 1e-14 : 1e-6) * n, "rate-magnitude", "rate is not the norm of the angular velocity");
    V3 u = x.get_ang_vel_unit_vec().template cast<double>();
    m.check(near(Mat(u * n), Mat(d), 1e-6, sizeof(T) == 8 ? 1e-14 * (1 + n) : 1e-6 * (1 + n)), "rate-unit", "unit vector does not match the angular velocity");
  }
};
struct ConF {
  enum { OPS = 1 };
  BX c;
  void op(mc::MC& m, ContactMeasurement& x, int) {
    int k = m.choose(8, "contacts");
    c.resize(k < 2 ? k : k < 6 ? 4 : 2);
    for (int i = 0; i < c.rows(); i++) c(i) = (k * 5 + 3) >> i & 1;
    BX given = c;
    x.set_contact(given);
    given.setConstant(true);
  }
  void compare(mc::MC& m, const ContactMeasurement& x) { m.check(same(x.get_contact(), c), "contacts", "contacts are not what was set"); }
};
template <class T>
struct JointF {
  enum { OPS = 2 };
  Eigen::Matrix<T, Eigen::Dynamic, 1> p, v, e;
  void op(mc::MC& m, JointStateMeasurement<T>& x, int k) {
    int n = m.choose(3, "joints") * 6, s = m.choose(3, "values");
    Eigen::Matrix<T, Eigen::Dynamic, 1> a(n), b(n), c(n);
    for (int i = 0; i < n; i++) { a(i) = s + 0.1 * i; b(i) = 100 - s * i; c(i) = -3 * s - i; }
    p = a;
    if (k == 0) { v = b; e = c; x.set_joint_state(a, b, c); }
    else x.set_encoders(a);
    a.setConstant(7);
  }
  void compare(mc::MC& m, const JointStateMeasurement<T>& x) {
    m.check(same(x.get_joint_pos(), p), "joint-position", "joint positions are not what was set");
    m.check(same(x.get_joint_vel(), v), "joint-velocity", "joint velocities are not what was set");
    m.check(same(x.get_joint_effort(), e), "joint-effort", "joint efforts are not what was set");
  }
};
struct LegF {
  enum { OPS = 3 };
  VX e = VX::Zero(12), d = VX::Zero(12);
  BX c = BX::Constant(4, false);
  void op(mc::MC& m, kinematics::MiniCheetahKinematics& x, int k) {
    int s = m.choose(3, "values");
    if (k == 0) { for (int i = 0; i < 12; i++) e(i) = 0.2 * s * i - s; x.set_joint_state(e); }
    else if (k == 1) { for (int i = 0; i < 12; i++) d(i) = s - 0.3 * i; x.set_joint_state_velocity(d); }
    else { for (int i = 0; i < 4; i++) c(i) = (6 + 5 * s) >> i & 1; x.set_contact(c); }
  }
  void compare(mc::MC& m, kinematics::MiniCheetahKinematics x) {
    for (int i = 0; i < 12; i++) m.check(same(x.get_joint_state(i), e(i)), "encoder", "joint state is not what was set");
    for (int i = 0; i < 4; i++) m.check(x.get_contact(i) == c(i), "leg-contact", "contact is not what was set");
    // the joint rates show in the stance-leg velocity only
    kinematics::MiniCheetahKinematics y(e, d, c);
    m.check(same(x.get_init_velocity(V3(1, 2, 3)), y.get_init_velocity(V3(1, 2, 3))), "leg-rate", "joint velocities are not what was set");
  }
};

void odom(mc::MC& m) {
  V3 p = V3::Zero();
  M3 R = M3::Identity();
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
  static const std::vector<OV> Q = {OV{{1, 0, 0, 0}}, OV{{0.5, 0.5, -0.5, 0.5}}, OV{{0, 0.6, 0, -0.8}}};
  std::unique_ptr<OdomMeasurement> x;
  Head h;
  auto pack = [&] { T.setIdentity(); T.block<3, 3>(0, 0) = R; T.block<3, 1>(0, 3) = p; };
  if (m.flag("full constructor")) {
    auto q = Q[m.choose(3, "orientation")];
    p = VAL[m.choose(4, "position")];
    R = quatR(q);
    h = Head{7, 3.25, "odom"};
    x.reset(new OdomMeasurement(p, Eigen::Quaterniond((*q)[0], (*q)[1], (*q)[2], (*q)[3]), h.seq, h.t, h.frame));
    pack();
  } else {
    x.reset(new OdomMeasurement());
  }
  int depth = m.thorough ? 5 : 4;
  for (int i = 0; i <= depth; i++) {
    m.step();
    m.check(x->get_type() == ODOM, "odom-type", "wrong type");
    m.check(same(x->get_time(), h.t) && x->header.frame_id == h.frame && x->header.seq == h.seq, "odom-header", "wrong header");
    m.check(near(Mat(x->get_transformation()), Mat(T), 1e-14, 1e-14), "odom", "transformation does not hold the position and orientation that were set");
    if (i == depth) break;
    int k = m.choose(4, "operation");
    if (k == 0) { p = VAL[m.choose(4, "position")]; x->set_translation(p); x->set_transformation(); pack(); }
    else if (k == 1) { auto q = Q[m.choose(3, "orientation")]; R = quatR(q); x->set_rotation(Eigen::Quaterniond((*q)[0], (*q)[1], (*q)[2], (*q)[3])); x->set_transformation(); pack(); }
    else if (k == 2) { h.t = 1.5 * i + 1; x->set_time(h.t); }
    else { OdomMeasurement y(*x); y.set_translation(V3(9, 9, 9)); y.set_transformation(); y.set_time(-4); }
  }
  m.validated();
}

void program(mc::MC& m) {
  std::unique_ptr<Kind> k;
  int kind = m.choose(11, "kind");
  switch (kind) {
    case 0: k.reset(new KindT<ImuMeasurement<double>, ImuF<double>>(IMU)); break;
    case 1: k.reset(new KindT<VelocityMeasurement<double>, VelF<double>>(VELOCITY)); break;
    case 2: k.reset(new KindT<AngularVelocityMeasurement<double>, AngF<double>>(ANGULAR_VELOCITY)); break;
    case 3: k.reset(new KindT<ContactMeasurement, ConF>(CONTACT)); break;
    case 4: k.reset(new KindT<JointStateMeasurement<double>, JointF<double>>(JOINT_STATE)); break;
    case 5: k.reset(new KindT<kinematics::MiniCheetahKinematics, LegF>(LEGGED_KINEMATICS)); break;
    case 6: odom(m); return;
    case 7: k.reset(new KindT<ImuMeasurement<float>, ImuF<float>>(IMU)); break;
    case 8: k.reset(new KindT<VelocityMeasurement<float>, VelF<float>>(VELOCITY)); break;
    case 9: k.reset(new KindT<AngularVelocityMeasurement<float>, AngF<float>>(ANGULAR_VELOCITY)); break;
    case 10: k.reset(new KindT<JointStateMeasurement<float>, JointF<float>>(JOINT_STATE)); break;
  }
  int own = kind == 0 || kind == 7 ? 4 : k->ops();
  int depth = m.thorough ? 4 : 3;
  k->compare(m, "fresh");
  for (int i = 0; i < depth; i++) {
    int o = m.choose(own + 4, "operation");
    m.note(mc::fmt("operation %d", o));
    if (o < own) k->op(m, o);
    else if (o == own) { k->h.t = i == 0 ? 1697040000.123456789 : i == 1 ? -2.5 : 0; k->base().set_time(k->h.t); }
    else if (o == own + 1) { k->h = Head{(uint64_t)-1 - i, 4.75 + i, i ? "imu" : std::string()}; k->base().set_header(k->h.seq, k->h.t, k->h.frame); }
    else if (o == own + 2) { Measurement other; other.set_header(11 + i, 0.1 * i, "body"); k->h = Head{(uint64_t)(11 + i), 0.1 * i, "body"}; k->base().set_header(other.header); }
    else k->copy_out();
    m.step();
    k->compare(m, "after");
    k->compare_copy(m);
  }
  m.state(mc::hash_mix(kind, mc::fnv(m.seq_.data(), m.seq_.size() * sizeof(short))));
  m.validated();
}
}    // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 3;
  o.what = "one sequence of setter calls, header edits and copies on one measurement kind, every field read back after each";
  o.bounds = "11 measurement kinds (double and float) x all sequences of 3 (4) operations x 4 values, 4 unit quaternions, 12 invalid quaternions";
  return o;
}
MC_MAIN(options)

// Glue between the harnesses and drift: configuration files, measurements, state comparison.
#pragma once
#include <sys/stat.h>
#include <array>
#include <optional>
#include "drift/estimator/inekf_estimator.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
#include "mc.hpp"
#include "ref.hpp"

namespace kit {
using namespace estimator;
using ref::Belief;
using ref::M3;
using ref::Mat;
using ref::V3;
using ref::Vec;
using OD = std::optional<double>;
using OB = std::optional<bool>;
using OI = std::optional<int>;
using OV = std::optional<std::vector<double>>;
using OS = std::optional<std::string>;

inline const V3 G(0, 0, -9.80);

// ---------------------------------------------------------------- configuration files
inline std::string scratch() {
  static std::string d;
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    const char* b = getenv("MC_SCRATCH");
    d = std::string(b ? b : "/tmp") + "/s" + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
  }
  return d;
}
struct Yaml {
  std::map<std::string, std::map<std::string, std::string>> sec;
  static std::string num(double v) { return mc::fmt("%.17g", v); }
  void set(const char* s, const char* k, const OD& v) { if (v) sec[s][k] = num(*v); }
  void set(const char* s, const char* k, const OI& v) { if (v) sec[s][k] = std::to_string(*v); }
  void set(const char* s, const char* k, const OB& v) { if (v) sec[s][k] = *v ? "true" : "false"; }
  void set(const char* s, const char* k, const OS& v) { if (v) sec[s][k] = *v; }
  void set(const char* s, const char* k, const OV& v) {
    if (!v) return;
    std::string o = "[";
    for (size_t i = 0; i < v->size(); i++) o += (i ? ", " : "") + num((*v)[i]);
    sec[s][k] = o + "]";
  }
  static bool& drop_empty() {      // leave sections without entries out of the file
    static bool d = false;
    return d;
  }
  std::string text() const {
    std::string o;
    for (auto& s : sec) {
      if (s.second.empty() && drop_empty()) continue;
      o += s.first + ":\n";
      if (s.second.empty()) o += "  unused_entry: 0\n";
      for (auto& k : s.second) o += "  " + k.first + ": " + k.second + "\n";
    }
    return o;
  }
  std::string write(const char* name) const {
    // one file per distinct content: cheap and never overwritten while in use
    static std::map<std::string, std::string> cache;
    static pid_t owner = 0;
    if (owner != getpid()) { cache.clear(); owner = getpid(); }
    std::string t = text();
    auto it = cache.find(t);
    if (it != cache.end()) return it->second;
    std::string f = scratch() + "/" + name + std::to_string(cache.size()) + ".yaml";
    std::ofstream(f) << t;
    cache[t] = f;
    return f;
  }
};

struct ImuCfg {
  OD gyro_std = 0.05, acc_std = 0.2, gyro_bias_std = 0.003, acc_bias_std = 0.004;
  OV bg = {}, ba = {};
  OB static_init = false, imu_ori = false, bias_update = true;
  OI init_size = {};
  OV rot = {}, trans = {};
  std::string file() const {
    Yaml y;
    y.sec["noises"]; y.sec["settings"]; y.sec["priors"];
    y.set("noises", "gyroscope_std", gyro_std);
    y.set("noises", "accelerometer_std", acc_std);
    y.set("noises", "gyroscope_bias_std", gyro_bias_std);
    y.set("noises", "accelerometer_bias_std", acc_bias_std);
    y.set("priors", "gyroscope_bias", bg);
    y.set("priors", "accelerometer_bias", ba);
    y.set("settings", "static_bias_initialization", static_init);
    y.set("settings", "use_imu_ori_to_init", imu_ori);
    y.set("settings", "enable_imu_bias_update", bias_update);
    y.set("settings", "init_bias_size", init_size);
    y.set("settings", "rotation_imu2body", rot);
    y.set("settings", "translation_imu2body", trans);
    return y.write("imu");
  }
};
struct VelCfg {
  OD std = 0.1, thres = {}, scale = {};
  OV rot = {};
  std::string file() const {
    Yaml y;
    y.sec["noises"]; y.sec["settings"];
    y.set("noises", "velocity_std", std);
    y.set("settings", "correction_time_threshold", thres);
    y.set("settings", "velocity_scale", scale);
    y.set("settings", "rotation_vel2body", rot);
    return y.write("vel");
  }
};
struct LegCfg {
  OD enc_std = 0.02, add_std = 0.05, contact_std = 0.1, thres = {};
  std::string file() const {
    Yaml y;
    y.sec["noises"]; y.sec["settings"];
    y.set("noises", "encoder_std", enc_std);
    y.set("noises", "kinematics_additive_std", add_std);
    y.set("noises", "contact_std", contact_std);
    y.set("settings", "correction_time_threshold", thres);
    return y.write("leg");
  }
};
struct EstCfg {
  OD rot_std = {}, vel_std = {}, pos_std = {};
  bool logger = false;
  OS pose_log = {}, vel_log = {};
  OD log_rate = {};
  std::string file() const {
    Yaml y;
    y.sec["logger"]; y.sec["state"];
    y.set("logger", "enable_pose_logger", OB(logger));
    y.set("logger", "pose_log_file", pose_log);
    y.set("logger", "vel_log_file", vel_log);
    y.set("logger", "pose_log_rate", log_rate);
    y.set("state", "rotation_std_value", rot_std);
    y.set("state", "velocity_std_value", vel_std);
    y.set("state", "position_std_value", pos_std);
    return y.write("est");
  }
};
struct GyroCfg {
  OV rot = {}, prior = {};
  OB flat = {}, static_init = {};
  OD t_thres = {}, av_std = {}, av_bias_std = {}, f_std = {}, f_bias_std = {}, imu_std = {}, enc_std = {};
  OI method = {}, init_size = {};
  std::string file() const {
    Yaml y;
    y.sec["noises"]; y.sec["settings"]; y.sec["priors"];
    y.set("settings", "rotation_imu2body", rot);
    y.set("settings", "flat_ground", flat);
    y.set("settings", "t_threshold", t_thres);
    y.set("settings", "correction_method", method);
    y.set("settings", "static_bias_initialization", static_init);
    y.set("settings", "init_bias_size", init_size);
    y.set("priors", "ang_vel_bias", prior);
    y.set("noises", "ang_vel_std", av_std);
    y.set("noises", "ang_vel_bias_std", av_bias_std);
    y.set("noises", "filter_std", f_std);
    y.set("noises", "filter_bias_std", f_bias_std);
    y.set("noises", "imu_meas_noise_std", imu_std);
    y.set("noises", "encoder_meas_noise_std", enc_std);
    return y.write("gyro");
  }
};
inline M3 quatR(const OV& q) {
  if (!q) return M3::Identity();
  Eigen::Quaterniond x((*q)[0], (*q)[1], (*q)[2], (*q)[3]);
  // own conversion, for unit quaternions
  double w = x.w(), a = x.x(), b = x.y(), c = x.z();
  M3 r;
  r << 1 - 2 * (b * b + c * c), 2 * (a * b - w * c), 2 * (a * c + w * b), 2 * (a * b + w * c),
      1 - 2 * (a * a + c * c), 2 * (b * c - w * a), 2 * (a * c - w * b), 2 * (b * c + w * a),
      1 - 2 * (a * a + b * b);
  return r;
}
inline V3 v3(const OV& v) { return v ? V3((*v)[0], (*v)[1], (*v)[2]) : V3(V3::Zero()); }
inline double sq(double x) { return x * x; }

// ---------------------------------------------------------------- measurements
inline ImuMeasurementPtr imu(double t, const V3& w, const V3& a, const OV& q = {}) {
  auto m = std::make_shared<ImuMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(w(0), w(1), w(2));
  m->set_lin_acc(a(0), a(1), a(2));
  if (q) m->set_quaternion((*q)[0], (*q)[1], (*q)[2], (*q)[3]);
  return m;
}
inline VelocityMeasurementPtr vel(double t, const V3& v) {
  auto m = std::make_shared<VelocityMeasurement<double>>();
  m->set_time(t);
  m->set_velocity(v(0), v(1), v(2));
  return m;
}
inline AngularVelocityMeasurementPtr angvel(double t, const V3& v) {
  auto m = std::make_shared<AngularVelocityMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(v(0), v(1), v(2));
  return m;
}
// A legged robot with freely chosen foot positions and Jacobians (n legs, 3 joints each).
class TestLegs : public measurement::LeggedKinematicsMeasurement {
 public:
  TestLegs(double t, const std::vector<bool>& contact, const std::vector<V3>& pos, const std::vector<M3>& J,
           const V3& init_v = V3::Zero(), const V3& init_w_gain = V3::Zero())
      : pos_(pos), J_(J), iv_(init_v), ig_(init_w_gain) {
    set_time(t);
    int n = (int)contact.size();
    contacts_.resize(n, 1);
    for (int i = 0; i < n; i++) contacts_[i] = contact[i];
    encoders_ = Vec::Zero(3 * n);
    d_encoders_ = Vec::Zero(3 * n);
    positions_.setConstant(3, n, 0);
    jacobians_.setConstant(3, 3 * n, 0);
  }
  void ComputeKinematics() override {
    for (size_t i = 0; i < pos_.size(); i++) {
      positions_.col(i) = pos_[i];
      jacobians_.block(0, 3 * i, 3, 3) = J_[i];
    }
  }
  int get_num_legs() override { return (int)pos_.size(); }
  const Eigen::Vector3d get_init_velocity(const Eigen::Vector3d& w) override { return iv_ + ig_.cross(w); }

 private:
  std::vector<V3> pos_;
  std::vector<M3> J_;
  V3 iv_, ig_;
};

template <class Q>
struct Buf {
  std::shared_ptr<Q> q = std::make_shared<Q>();
  std::shared_ptr<std::mutex> m = std::make_shared<std::mutex>();
};
using ImuBuf = Buf<IMUQueue>;
using VelBuf = Buf<VelocityQueue>;
using LegBuf = Buf<LeggedKinQueue>;
using AngBuf = Buf<AngularVelocityQueue>;

// ---------------------------------------------------------------- states
inline RobotState to_state(const Belief& b, bool bias, double t) {
  Vec th(6);
  th << b.bg, b.ba;
  RobotState s(b.X(), th, b.P);
  Mat Q = Mat::Zero(b.dim(), b.dim());
  for (size_t i = 0; i < b.d.size(); i++) Q.block(9 + 3 * i, 9 + 3 * i, 3, 3) = b.dnoise[i];
  s.set_continuous_noise_covariance(Q);
  s.set_time(t);
  s.set_propagate_time(t);
  s.set_enable_imu_bias_update(bias);
  s.set_body_angular_velocity(V3::Zero());
  return s;
}
inline Belief from_state(const RobotState& s) {
  Belief b;
  Mat X = s.get_X();
  b.d.resize(X.cols() - 5);
  b.dnoise.resize(b.d.size());
  b.setX(X);
  Vec th = s.get_theta();
  b.bg = th.head(3);
  b.ba = th.segment(3, 3);
  b.P = s.get_P();
  Mat Q = s.get_continuous_noise_covariance();
  for (size_t i = 0; i < b.d.size(); i++) b.dnoise[i] = Q.block(9 + 3 * i, 9 + 3 * i, 3, 3);
  return b;
}
inline std::string ms(const Mat& m) {
  std::ostringstream o;
  o.precision(10);
  Eigen::IOFormat f(10, Eigen::DontAlignCols, " ", "; ");
  o << m.format(f);
  return o.str();
}
// relative to the largest entry of the expected matrix, plus an absolute floor
inline bool near(const Mat& got, const Mat& exp, double rtol = 1e-7, double atol = 1e-10) {
  if (got.rows() != exp.rows() || got.cols() != exp.cols()) return false;
  if (!got.allFinite()) return false;
  if (got.size() == 0) return true;
  return (got - exp).cwiseAbs().maxCoeff() <= atol + rtol * exp.cwiseAbs().maxCoeff();
}
inline bool near(double got, double exp, double rtol = 1e-9, double atol = 1e-12) {
  return std::isfinite(got) && std::fabs(got - exp) <= atol + rtol * std::fabs(exp);
}
// time stamps are passed on, not computed: equal up to the last digits, also for seconds since 1970
inline bool same_time(double a, double b) { return std::fabs(a - b) <= 1e-12 + 1e-15 * std::fabs(b); }
// Empty string when the covariances agree block by block (3x3 blocks scaled by their standard deviations).
inline std::string diffP(const Mat& got, const Mat& exp, double rtol, bool skip_theta_block = false) {
  if (got.rows() != exp.rows() || got.cols() != exp.cols())
    return mc::fmt("covariance is %dx%d, expected %dx%d", (int)got.rows(), (int)got.cols(), (int)exp.rows(), (int)exp.cols());
  if (!got.allFinite()) return "covariance is not finite";
  int n = (int)exp.rows() / 3;
  std::vector<double> sc(n);
  for (int i = 0; i < n; i++) sc[i] = std::sqrt(std::max(1e-18, exp.block(3 * i, 3 * i, 3, 3).trace()));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if (skip_theta_block && i >= n - 2 && j >= n - 2) continue;
      double e = (got.block(3 * i, 3 * j, 3, 3) - exp.block(3 * i, 3 * j, 3, 3)).cwiseAbs().maxCoeff();
      if (e > rtol * sc[i] * sc[j] + 1e-15)
        return mc::fmt("covariance block (%d,%d): got [%s], expected [%s]", i, j, ms(got.block(3 * i, 3 * j, 3, 3)).c_str(),
                       ms(exp.block(3 * i, 3 * j, 3, 3)).c_str());
    }
  return "";
}
inline std::string diff_mean(const Belief& g, const Belief& e, double tol = 1e-8) {
  if (g.d.size() != e.d.size()) return mc::fmt("state has %d augmented points, expected %d", (int)g.d.size(), (int)e.d.size());
  auto s = [&](const char* n, const Mat& a, const Mat& b) -> std::string {
    if (near(a, b, tol, tol)) return "";
    return mc::fmt("%s is [%s], expected [%s]", n, ms(a.transpose()).c_str(), ms(b.transpose()).c_str());
  };
  std::string r;
  if (!(r = s("rotation", g.R, e.R)).empty()) return r;
  if (!(r = s("velocity", g.v, e.v)).empty()) return r;
  if (!(r = s("position", g.p, e.p)).empty()) return r;
  for (size_t i = 0; i < e.d.size(); i++)
    if (!(r = s(mc::fmt("augmented point %d", (int)i).c_str(), g.d[i], e.d[i])).empty()) return r;
  if (!(r = s("gyroscope bias", g.bg, e.bg)).empty()) return r;
  if (!(r = s("accelerometer bias", g.ba, e.ba)).empty()) return r;
  return "";
}
inline std::string diff_structure(const RobotState& s) {
  Mat X = s.get_X();
  int k = (int)X.cols();
  if (X.rows() != k || k < 5) return "state matrix is not square or too small";
  Mat low = X.block(3, 0, k - 3, k), want = Mat::Zero(k - 3, k);
  want.block(0, 3, k - 3, k - 3).setIdentity();
  if ((low - want).cwiseAbs().maxCoeff() > 1e-12 || !X.allFinite())
    return "state matrix lost its group structure: [" + ms(X) + "]";
  M3 R = X.block(0, 0, 3, 3);
  if ((R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff() > 1e-7 || std::fabs(R.determinant() - 1) > 1e-7)
    return "orientation is not a rotation matrix: [" + ms(R) + "]";
  int D = 3 * k - 6 + (int)s.get_theta().rows();
  if (!s.get_theta().allFinite()) return "bias is not finite";
  if (s.get_theta().rows() != 6) return "bias vector has the wrong length";
  if (s.get_P().rows() != D || s.get_P().cols() != D) return "covariance dimension does not match the state";
  if (s.get_continuous_noise_covariance().rows() != D || s.get_continuous_noise_covariance().cols() != D)
    return "process-noise dimension does not match the state";
  return "";
}
inline std::string diff_psd(const Mat& P, double tol = 1e-9) {
  if (!P.allFinite()) return "covariance is not finite";
  Vec sd = P.diagonal();
  for (int i = 0; i < sd.size(); i++) {
    if (sd(i) < 0) return mc::fmt("variance %d is negative: %g", i, sd(i));
    sd(i) = sd(i) > 1e-300 ? 1 / std::sqrt(sd(i)) : 0;
  }
  Mat C = sd.asDiagonal() * P * sd.asDiagonal();   // correlation matrix
  if ((C - C.transpose()).cwiseAbs().maxCoeff() > tol) return "covariance is not symmetric";
  for (int i = 0; i < C.rows(); i++)
    if (sd(i) == 0 && P.row(i).cwiseAbs().maxCoeff() > 1e-150) return "zero variance with non-zero covariance";
  Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (C + C.transpose()));
  double mn = es.eigenvalues().minCoeff();
  if (mn < -tol) return mc::fmt("covariance is not positive semi-definite (correlation eigenvalue %g)", mn);
  return "";
}
// derived quantities must agree with the stored matrices
inline std::string diff_views(const RobotState& s) {
  Mat X = s.get_X(), P = s.get_P();
  int k = (int)X.cols();
  M3 R = X.block(0, 0, 3, 3);
  V3 v = X.block(0, 3, 3, 1), p = X.block(0, 4, 3, 1);
  auto eq = [&](const Mat& a, const Mat& b) {
    return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff());
  };
  if (s.dimX() != k || s.dimP() != P.cols() || s.dimTheta() != s.get_theta().rows() || s.dimQc() != s.get_continuous_noise_covariance().cols()) return "reported dimensions are wrong";
  if (!eq(s.get_rotation(), R) || !eq(s.get_world_rotation(), R) || !eq(s.get_body_rotation(), R.transpose())) return "rotation view is wrong";
  if (!eq(s.get_velocity(), v) || !eq(s.get_world_velocity(), v) || !eq(s.get_body_velocity(), R.transpose() * v)) return "velocity view is wrong";
  if (!eq(s.get_position(), p) || !eq(s.get_world_position(), p) || !eq(s.get_body_position(), R.transpose() * p)) return "position view is wrong";
  for (int i = 3; i < k; i++) if (!eq(s.get_vector(i), X.block(0, i, 3, 1))) return "get_vector is wrong";
  if (!eq(s.get_gyroscope_bias(), s.get_theta().head(3)) || !eq(s.get_accelerometer_bias(), s.get_theta().segment(3, 3))) return "bias view is wrong";
  if (!eq(s.get_world_X(), X)) return "world state matrix is wrong";
  Mat I = s.get_Xinv() * X;
  double scale = 1 + X.cwiseAbs().maxCoeff();
  if ((I - Mat::Identity(k, k)).cwiseAbs().maxCoeff() > 1e-7 * scale) return "inverse times state is not the identity";
  if (!eq(s.get_body_X(), s.get_Xinv())) return "body state matrix is wrong";
  if (!eq(s.get_rotation_covariance(), P.block(0, 0, 3, 3)) || !eq(s.get_velocity_covariance(), P.block(3, 3, 3, 3)) ||
      !eq(s.get_position_covariance(), P.block(6, 6, 3, 3))) return "pose covariance view is wrong";
  int n = 3 * k - 6;
  if (P.cols() >= n + 6 && (!eq(s.get_gyroscope_bias_covariance(), P.block(n, n, 3, 3)) || !eq(s.get_accelerometer_bias_covariance(), P.block(n + 3, n + 3, 3, 3))))
    return "bias covariance view is wrong";
  RobotState& u = const_cast<RobotState&>(s);
  for (int i = 5; i < k; i++) {
    if (!eq(u.get_aug_state(i), X.block(0, i, 3, 1))) return "augmented state view is wrong";
    if (!eq(u.get_aug_cov(i), P.block(3 * i - 6, 3 * i - 6, 3, 3))) return "augmented covariance view is wrong";
  }
  return "";
}
inline uint64_t hash_state(const RobotState& s) {
  uint64_t h = 14695981039346656037ull;
  Mat X = s.get_X(), P = s.get_P(), Q = s.get_continuous_noise_covariance();
  Vec th = s.get_theta();
  for (const Mat* m : {&X, &P, &Q})
    for (int i = 0; i < m->size(); i++) h = mc::hash_d(h, m->data()[i]);
  for (int i = 0; i < th.size(); i++) h = mc::hash_d(h, th(i));
  h = mc::hash_d(h, s.get_time());
  return mc::hash_d(h, s.get_propagate_time());
}
// deterministic full (strongly correlated) covariance
inline Mat full_cov(int n, double scale, int variant = 0) {
  Mat A(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) A(i, j) = std::sin(1.3 * (i + 1) * (j + 2) + 0.7 * i + variant);
  return scale * (A * A.transpose() / n + 0.3 * Mat::Identity(n, n));
}
}  // namespace kit

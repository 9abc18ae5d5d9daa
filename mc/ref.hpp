// Reference model of the invariant EKF, written from the equations and kept deliberately boring:
// every exponential is a generic matrix exponential, every update a textbook Kalman update.
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <map>
#include <vector>

namespace ref {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

inline M3 hat(const V3& w) {
  M3 m;
  m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
  return m;
}
// generic matrix exponential: scaling and squaring with a Taylor series
inline Mat expm(const Mat& A) {
  double n = A.cwiseAbs().rowwise().sum().maxCoeff();
  int s = 0;
  while (n > 0.25) { n /= 2; s++; }
  Mat B = A / std::pow(2.0, s);
  Mat T = Mat::Identity(A.rows(), A.cols()), E = T;
  for (int k = 1; k < 18; k++) { T = (T * B / k).eval(); E += T; }
  for (int i = 0; i < s; i++) E = (E * E).eval();
  return E;
}
inline M3 exp_so3(const V3& w) { return expm(hat(w)); }

struct Belief {
  M3 R = M3::Identity();
  V3 v = V3::Zero(), p = V3::Zero();
  std::vector<V3> d;          // augmented points, in column order
  std::vector<M3> dnoise;     // their continuous noise
  V3 bg = V3::Zero(), ba = V3::Zero();
  Mat P;                      // order: R v p d... bg ba
  int n() const { return 9 + 3 * (int)d.size(); }
  int dim() const { return n() + 6; }
  Mat X() const {
    int k = 5 + (int)d.size();
    Mat x = Mat::Identity(k, k);
    x.block(0, 0, 3, 3) = R;
    x.block(0, 3, 3, 1) = v;
    x.block(0, 4, 3, 1) = p;
    for (size_t i = 0; i < d.size(); i++) x.block(0, 5 + i, 3, 1) = d[i];
    return x;
  }
  void setX(const Mat& x) {
    R = x.block(0, 0, 3, 3);
    v = x.block(0, 3, 3, 1);
    p = x.block(0, 4, 3, 1);
    for (size_t i = 0; i < d.size(); i++) d[i] = x.block(0, 5 + i, 3, 1);
  }
  // adjoint on [R v p d...], identity on biases
  Mat Ad() const {
    Mat A = Mat::Identity(dim(), dim());
    A.block(0, 0, 3, 3) = R;
    for (int i = 0; i < 2 + (int)d.size(); i++) {
      V3 x = i == 0 ? v : i == 1 ? p : d[i - 2];
      A.block(3 + 3 * i, 3 + 3 * i, 3, 3) = R;
      A.block(3 + 3 * i, 0, 3, 3) = hat(x) * R;
    }
    return A;
  }
  Mat AdInv() const {
    Mat A = Mat::Identity(dim(), dim());
    M3 Rt = R.transpose();
    A.block(0, 0, 3, 3) = Rt;
    for (int i = 0; i < 2 + (int)d.size(); i++) {
      V3 x = i == 0 ? v : i == 1 ? p : d[i - 2];
      A.block(3 + 3 * i, 3 + 3 * i, 3, 3) = Rt;
      A.block(3 + 3 * i, 0, 3, 3) = -Rt * hat(x);
    }
    return A;
  }
};

struct Noise {   // continuous noise, covariances
  double gyro = 0.01, acc = 0.01, gyro_b = 1e-4, acc_b = 1e-4;
};

// exact rigid-body motion with constant body rate and specific force
inline void predict_mean(Belief& b, const V3& w, const V3& a, double dt, const V3& g) {
  Mat M = Mat::Zero(5, 5);
  M.block(0, 0, 3, 3) = hat(w);
  M.block(0, 3, 3, 1) = a;
  M(3, 4) = 1;
  Mat E = expm(M * dt);
  V3 dv = E.block(0, 3, 3, 1), dp = E.block(0, 4, 3, 1);
  b.p = (b.p + b.v * dt + b.R * dp + 0.5 * g * dt * dt).eval();
  b.v = (b.v + b.R * dv + g * dt).eval();
  b.R = (b.R * E.block(0, 0, 3, 3)).eval();
}

// left-invariant error dynamics  xi' = A xi
inline Mat error_dynamics(const Belief& b, const V3& w, const V3& a, bool bias) {
  int D = b.dim(), n = b.n();
  Mat A = Mat::Zero(D, D);
  for (int i = 0; i < n / 3; i++) A.block(3 * i, 3 * i, 3, 3) = -hat(w);
  A.block(3, 0, 3, 3) = -hat(a);
  A.block(6, 3, 3, 3) = M3::Identity();
  if (bias) {
    A.block(0, n, 3, 3) = -M3::Identity();
    A.block(3, n + 3, 3, 3) = -M3::Identity();
  }
  return A;
}

inline void predict(Belief& b, const V3& w, const V3& a, double dt, const V3& g, const Noise& q, bool bias,
                    bool left) {
  int D = b.dim(), n = b.n();
  Mat Phi = expm(error_dynamics(b, w, a, bias) * dt);
  Mat Q = Mat::Zero(D, D);
  Q.block(0, 0, 3, 3) = q.gyro * M3::Identity();
  Q.block(3, 3, 3, 3) = q.acc * M3::Identity();
  for (size_t i = 0; i < b.d.size(); i++) Q.block(9 + 3 * i, 9 + 3 * i, 3, 3) = b.dnoise[i];
  if (bias) {
    Q.block(n, n, 3, 3) = q.gyro_b * M3::Identity();
    Q.block(n + 3, n + 3, 3, 3) = q.acc_b * M3::Identity();
  }
  Belief nb = b;
  predict_mean(nb, w, a, dt, g);
  Mat P = b.P;
  if (!bias) {
    P.block(0, n, n, 6).setZero();
    P.block(n, 0, 6, n).setZero();
  }
  Mat Pl = left ? P : Mat(b.AdInv() * P * b.AdInv().transpose());
  Mat Pn = Phi * Pl * Phi.transpose() + Phi * Q * Phi.transpose() * dt;
  nb.P = left ? Pn : Mat(nb.Ad() * Pn * nb.Ad().transpose());
  if (!bias) {
    nb.P.block(0, n, n, 6).setZero();
    nb.P.block(n, 0, 6, n).setZero();
    nb.P.block(n, n, 6, 6) = Mat::Identity(6, 6);
  }
  b = nb;
}

// right-invariant observation:  z (world frame innovation), H on [R v p d.. bg ba], N world noise
inline void correct_right(Belief& b, const Vec& z, const Mat& H, const Mat& N, bool bias, bool left) {
  int D = b.dim(), n = b.n();
  Mat P = b.P;
  if (!bias) {
    P.block(0, n, n, 6).setZero();
    P.block(n, 0, 6, n).setZero();
    P.block(n, n, 6, 6) = 1e-4 * Mat::Identity(6, 6);
  }
  if (left) P = (b.Ad() * P * b.Ad().transpose()).eval();
  Mat S = H * P * H.transpose() + N;
  Mat K = S.transpose().fullPivLu().solve(H * P.transpose()).transpose();   // K = P H^T S^-1
  Vec dx = K * z;
  int k = 5 + (int)b.d.size();
  Mat xi = Mat::Zero(k, k);
  xi.block(0, 0, 3, 3) = hat(dx.head(3));
  for (int i = 3; i < k; i++) xi.block(0, i, 3, 1) = dx.segment(3 * (i - 2), 3);
  b.setX(expm(xi) * b.X());
  b.bg += V3(dx(n), dx(n + 1), 0);      // yaw-rate bias is never corrected
  b.ba += dx.segment(n + 3, 3);
  Mat I = Mat::Identity(D, D) - K * H;
  Mat Pn = I * P * I.transpose() + K * N * K.transpose();
  Pn.row(n + 2).setZero();
  Pn.col(n + 2).setZero();
  Pn(n + 2, n + 2) = 1e-4;
  if (left) Pn = (b.AdInv() * Pn * b.AdInv().transpose()).eval();
  b.P = Pn;
}

// left-invariant observation (body frame innovation); X <- X exp(dx)
inline void correct_left(Belief& b, const Vec& z, const Mat& H, const Mat& N, bool bias, bool left) {
  int D = b.dim(), n = b.n();
  Mat P = b.P;
  if (!bias) {
    P.block(0, n, n, 6).setZero();
    P.block(n, 0, 6, n).setZero();
    P.block(n, n, 6, 6) = 1e-4 * Mat::Identity(6, 6);
  }
  if (!left) P = (b.AdInv() * P * b.AdInv().transpose()).eval();
  Mat S = H * P * H.transpose() + N;
  Mat K = S.transpose().fullPivLu().solve(H * P.transpose()).transpose();
  Vec dx = K * z;
  int k = 5 + (int)b.d.size();
  Mat xi = Mat::Zero(k, k);
  xi.block(0, 0, 3, 3) = hat(dx.head(3));
  for (int i = 3; i < k; i++) xi.block(0, i, 3, 1) = dx.segment(3 * (i - 2), 3);
  b.setX(b.X() * expm(xi));
  b.bg += dx.segment(n, 3);
  b.ba += dx.segment(n + 3, 3);
  Mat I = Mat::Identity(D, D) - K * H;
  Mat Pn = I * P * I.transpose() + K * N * K.transpose();
  if (!left) Pn = (b.Ad() * Pn * b.Ad().transpose()).eval();
  b.P = Pn;
}

inline void correct_velocity(Belief& b, const V3& v_body, const M3& cov_body, bool bias, bool left) {
  Mat H = Mat::Zero(3, b.dim());
  H.block(0, 3, 3, 3) = M3::Identity();
  Vec z = b.R * v_body - b.v;
  Mat N = b.R * cov_body * b.R.transpose();
  correct_right(b, z, H, N, bias, left);
}

struct Contacts {   // legged bookkeeping: which leg sits in which column
  std::vector<int> legs;   // legs[i] = leg held by augmented column i
  int find(int leg) const {
    for (size_t i = 0; i < legs.size(); i++) if (legs[i] == leg) return (int)i;
    return -1;
  }
};

// one leg-kinematics measurement: pos[leg], cov[leg] in body frame, contact flags
inline void correct_legs(Belief& b, Contacts& c, const std::vector<bool>& contact, const std::vector<V3>& pos,
                         const std::vector<M3>& cov, const M3& contact_noise, bool bias, bool left,
                         int sensor = 0) {
  int off = 100 * sensor;   // several leg sensors share the augmented columns
  std::vector<int> upd;
  for (size_t l = 0; l < contact.size(); l++)
    if (contact[l] && c.find(off + (int)l) >= 0) upd.push_back(l);
  if (!upd.empty()) {
    Mat H = Mat::Zero(3 * upd.size(), b.dim()), N = Mat::Zero(3 * upd.size(), 3 * upd.size());
    Vec z(3 * upd.size());
    for (size_t i = 0; i < upd.size(); i++) {
      int l = upd[i], k = c.find(off + (int)l);
      H.block(3 * i, 6, 3, 3) = -M3::Identity();
      H.block(3 * i, 9 + 3 * k, 3, 3) = M3::Identity();
      z.segment(3 * i, 3) = b.R * pos[l] - (b.d[k] - b.p);
      N.block(3 * i, 3 * i, 3, 3) = b.R * cov[l] * b.R.transpose();
    }
    correct_right(b, z, H, N, bias, left);
  }
  for (size_t l = 0; l < contact.size(); l++) {
    int k = c.find(off + (int)l);
    if (contact[l] || k < 0) continue;
    int D = b.dim();      // marginalise
    Mat S = Mat::Zero(D - 3, D);
    for (int r = 0, s = 0; s < D; s++) {
      if (s >= 9 + 3 * k && s < 12 + 3 * k) continue;
      S(r++, s) = 1;
    }
    b.P = (S * b.P * S.transpose()).eval();
    b.d.erase(b.d.begin() + k);
    b.dnoise.erase(b.dnoise.begin() + k);
    c.legs.erase(c.legs.begin() + k);
  }
  for (size_t l = 0; l < contact.size(); l++) {
    if (!contact[l] || c.find(off + (int)l) >= 0) continue;
    int D = b.dim(), n = b.n();
    Mat F = Mat::Zero(D + 3, D), G = Mat::Zero(D + 3, 3);
    F.block(0, 0, n, n).setIdentity();
    F.block(n + 3, n, 6, 6).setIdentity();
    // d = p + R h:  right error: xi_d = xi_p (+ R n);  left error: xi_d = xi_p - hat(h) xi_R (+ n)
    F.block(n, 6, 3, 3).setIdentity();
    if (left) { F.block(n, 0, 3, 3) = -hat(pos[l]); G.block(n, 0, 3, 3) = M3::Identity(); }
    else G.block(n, 0, 3, 3) = b.R;
    b.P = (F * b.P * F.transpose() + G * cov[l] * G.transpose()).eval();
    b.d.push_back(b.p + b.R * pos[l]);
    b.dnoise.push_back(contact_noise);
    c.legs.push_back(off + (int)l);
  }
}
}  // namespace ref

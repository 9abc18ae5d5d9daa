// Reference model of the angular-velocity Kalman filter in front of the propagation.
#pragma once
#include "drift/imu_filter/imu_ang_vel_ekf.h"
#include "kit.hpp"
namespace gyro {
using namespace kit;
enum Corr { PLUS = 0, SINGLE = 1, MULTI = 2, ANGVEL = 3 };
struct S {                       // one sample of any kind
  double t;
  V3 w, a;
  OV q;
  int id = 0;
};
enum { QG, QE, QO, QI };         // queues: gyro, encoder, output, IMUs
struct Out {
  double t;
  V3 w, a;
  OV q;
};
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 3, 6> M36;

struct Ref {
  bool gyro_prop = false;
  Corr corr = PLUS;
  bool flat = false, stat = false;
  int win = 0;
  double thres = 0.03;
  M3 Rinv = M3::Identity();
  double r_imu = 0.01, r_enc = 0.01;
  V6 x = V6::Zero();
  M6 P = M6::Zero(), Q = M6::Zero();
  std::vector<std::deque<S>> imus;     // correction IMUs
  std::deque<S> enc, gyro;
  std::vector<Out> out;
  bool ready = false;
  std::vector<V3> window;
  V3 prev = V3::Zero();
  bool have_prop = false;
  double prop_t = 0;
  bool have_latest = false;
  S latest;
  std::function<void(int)> hook;       // called before each access to a queue: others may change it then
  void at(int q) { if (hook) hook(q); }

  void fuse(const V3& meas, bool imu, double t, const S& carrier) {
    M36 H = M36::Zero();
    for (int i = flat ? 0 : 2; i < 3; i++) {
      H(i, i) = 1;
      if (imu) H(i, 3 + i) = 1;
    }
    M3 R = M3::Identity() * (imu ? r_imu : r_enc);
    M3 Sm = H * P * H.transpose() + R;
    Eigen::Matrix<double, 6, 3> K = P * H.transpose() * Sm.inverse();
    x += K * (meas - H * x);
    P = ((M6::Identity() - K * H) * P).eval();
    at(QO);
    out.push_back(Out{t, V3(x.head<3>()), carrier.a, carrier.q});
  }
  bool too_old(double t) const { return have_prop && prop_t - t > thres; }
  void run() {
    if (!ready) {
      if (stat && (int)window.size() < win) {
        at(QI);
        if (imus[0].empty()) return;
        window.push_back(imus[0].front().w);
        imus[0].pop_front();
        if (gyro_prop) at(QG);
        if (gyro_prop && !gyro.empty()) {
          prev = gyro.front().w;
          gyro.pop_front();
        }
        return;
      }
      if (stat) {
        V3 avg = V3::Zero();
        for (auto& v : window) avg += v;
        if (!window.empty()) avg /= (double)window.size();
        x.head<3>().setZero();
        x.tail<3>() = avg;
        if (gyro_prop) at(QG);
        gyro.clear();
        for (size_t i = 0; i < imus.size(); i++) { at(QI + (int)i); imus[i].clear(); }
        if (corr == PLUS || corr == ANGVEL) at(QE);
        enc.clear();
      }
      ready = true;
      return;
    }
    if (gyro_prop) {
      at(QG);
      if (!gyro.empty()) {
        S s = gyro.front();
        gyro.pop_front();
        have_prop = true;
        prop_t = s.t;
        if (corr == ANGVEL) { have_latest = true; latest = s; }
        x.head<3>() += s.w - prev;
        prev = s.w;
        P += Q;
      }
    } else {
      P += Q;
    }
    if (corr == SINGLE) {
      auto& q = imus[0];
      at(QI);
      if (q.empty()) return;
      S s = q.front();
      if (gyro_prop) {
        if (!have_prop || prop_t < s.t) return;    // wait for the propagation to catch up
      }
      q.pop_front();
      if (gyro_prop && too_old(s.t)) return;
      fuse(s.w, true, s.t, s);
    } else if (corr == MULTI) {
      for (size_t i = 0; i < imus.size(); i++) {
        auto& q = imus[i];
        at(QI + (int)i);
        if (q.empty()) continue;
        S s = q.front();
        q.pop_front();
        if (!too_old(s.t)) fuse(s.w, true, s.t, s);
      }
    } else if (corr == ANGVEL) {
      at(QE);
      if (enc.empty()) return;
      S s = enc.front();
      enc.pop_front();
      if (have_latest) fuse(Rinv * s.w, false, s.t, latest);
    } else {
      auto& q = imus[0];
      at(QI);
      bool has_i = !q.empty();
      S si{}, se{};
      if (has_i) si = q.front();
      at(QE);
      bool has_e = !enc.empty();
      if (has_e) se = enc.front();
      if (!has_i && !has_e) return;
      if (has_i && (!has_e || si.t <= se.t)) {
        have_latest = true;
        latest = si;
        if (!too_old(si.t)) fuse(si.w, true, si.t, si);
        at(QI);
        if (!q.empty() && q.front().id == si.id) q.pop_front();
      } else {
        if (have_latest && !too_old(se.t)) fuse(Rinv * se.w, false, se.t, latest);
        at(QE);
        if (!enc.empty() && enc.front().id == se.id) enc.pop_front();
      }
    }
  }
  void clear() {
    for (auto& q : imus) q.clear();
    enc.clear();
    gyro.clear();
    out.clear();
  }
};
}  // namespace gyro

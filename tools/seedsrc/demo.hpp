// Small helpers shared by the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <string>
#include "drift/estimator/inekf_estimator.h"
#include "drift/kinematics/mini_cheetah_kinematics.h"
inline std::string put(const std::string& name, const std::string& text) {
  std::ofstream(name) << text;
  return name;
}
inline void expect(bool ok, const char* what) {
  if (!ok) {
    printf("DEMO FAILED: %s\n", what);
    fflush(stdout);
    _exit(1);
  }
}
inline std::shared_ptr<ImuMeasurement<double>> imu(double t, double wx, double wy, double wz, double ax = 0, double ay = 0,
                                                   double az = 9.80) {
  auto m = std::make_shared<ImuMeasurement<double>>();
  m->set_time(t);
  m->set_angular_velocity(wx, wy, wz);
  m->set_lin_acc(ax, ay, az);
  return m;
}
inline std::shared_ptr<VelocityMeasurement<double>> vel(double t, double x, double y, double z) {
  auto m = std::make_shared<VelocityMeasurement<double>>();
  m->set_time(t);
  m->set_velocity(x, y, z);
  return m;
}
inline std::shared_ptr<measurement::kinematics::MiniCheetahKinematics> legs(double t, int c0, int c1, int c2, int c3, double q = 0) {
  Eigen::Matrix<bool, Eigen::Dynamic, 1> c(4);
  c << (c0 != 0), (c1 != 0), (c2 != 0), (c3 != 0);
  Eigen::VectorXd e(12), z = Eigen::VectorXd::Zero(12);
  for (int i = 0; i < 12; i++) e(i) = 0.1 * (i + 1) + q;
  auto m = std::make_shared<measurement::kinematics::MiniCheetahKinematics>(e, z, c);
  m->set_time(t);
  return m;
}
template <class T> struct Buf {
  std::shared_ptr<std::queue<std::shared_ptr<T>>> q{new std::queue<std::shared_ptr<T>>};
  std::shared_ptr<std::mutex> m{new std::mutex};
};
typedef Buf<ImuMeasurement<double>> ImuBuf;
typedef Buf<VelocityMeasurement<double>> VelBuf;
struct LegBuf {
  LeggedKinQueuePtr q{new LeggedKinQueue};
  std::shared_ptr<std::mutex> m{new std::mutex};
};

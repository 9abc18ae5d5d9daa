// Simulated ROS sensor sources: message variants to deliver and the measurements they must become.
#pragma once
#include <boost/make_shared.hpp>
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
#include "kit.hpp"
namespace rossrc {
using namespace kit;
using namespace measurement;
struct Expected {
  uint64_t seq;
  double t;
  std::string frame;
  V3 a = V3::Zero(), b = V3::Zero();  // velocity / rates, acceleration
  std::array<double, 4> q{{1, 0, 0, 0}};
  bool has_q = false;
  Vec enc, denc;
  std::array<bool, 4> contact{};
};
template <class Q>
std::vector<typename Q::element_type::value_type> items(Q q) {
  std::vector<typename Q::element_type::value_type> r;
  auto c = *q;
  while (!c.empty()) { r.push_back(c.front()); c.pop(); }
  return r;
}
std::string head(const Measurement& x, const Expected& e) {
  if (x.header.seq != e.seq) return mc::fmt("sequence number %llu instead of %llu", (unsigned long long)x.header.seq, (unsigned long long)e.seq);
  if (!(std::fabs(x.get_time() - e.t) < 2e-7)) return mc::fmt("time %.9f instead of %.9f", x.get_time(), e.t);
  if (x.header.frame_id != e.frame) return "frame '" + x.header.frame_id + "' instead of '" + e.frame + "'";
  return "";
}
std::string cmp(const ImuMeasurement<double>& x, const Expected& e) {
  std::string h = head(x, e);
  if (!h.empty()) return h;
  if (!near(x.get_angular_velocity(), e.a, 1e-12, 1e-12)) return "wrong angular velocity";
  if (!near(x.get_lin_acc(), e.b, 1e-12, 1e-12)) return "wrong acceleration";
  if (e.has_q) {
    M3 R = x.get_rotation_matrix();
    Eigen::Quaterniond q(e.q[0], e.q[1], e.q[2], e.q[3]);
    if ((R - q.toRotationMatrix()).norm() > 1e-9) return "wrong orientation";
  } else if (!near(Vec(Eigen::Map<const Eigen::Matrix<double, 9, 1>>(M3(x.get_rotation_matrix()).data())),
                   Vec(Eigen::Map<const Eigen::Matrix<double, 9, 1>>(M3(ImuMeasurement<double>().get_rotation_matrix()).data())), 1e-12, 1e-12))
    return "an orientation appeared though the message carried none";
  return "";
}
std::string cmp(const VelocityMeasurement<double>& x, const Expected& e) {
  std::string h = head(x, e);
  if (!h.empty()) return h;
  return near(x.get_velocity(), e.a, 1e-9, 1e-9) ? "" : mc::fmt("velocity (%g %g %g) instead of (%g %g %g)", x.get_velocity()(0), x.get_velocity()(1), x.get_velocity()(2), e.a(0), e.a(1), e.a(2));
}
std::string cmp(const AngularVelocityMeasurement<double>& x, const Expected& e) {
  std::string h = head(x, e);
  if (!h.empty()) return h;
  return near(x.get_angular_velocity(), e.a, 1e-9, 1e-9) ? "" : "wrong turn rate";
}
std::string cmp(LeggedKinematicsMeasurement& x, const Expected& e) {
  std::string h = head(x, e);
  if (!h.empty()) return h;
  for (int i = 0; i < 12; i++)
    if (x.get_joint_state(i) != e.enc(i)) return mc::fmt("wrong joint angle %d", i);
  Eigen::Matrix<bool, Eigen::Dynamic, 1> c(4);
  for (int i = 0; i < 4; i++) {
    c(i) = e.contact[i];
    if (x.get_contact(i) != e.contact[i]) return mc::fmt("wrong contact flag of leg %d", i);
  }
  // joint velocities show in the initial velocity each stance leg implies
  for (int leg = 0; leg < 4; leg++) {
    Eigen::Matrix<bool, Eigen::Dynamic, 1> one = Eigen::Matrix<bool, Eigen::Dynamic, 1>::Constant(4, false);
    one(leg) = true;
    kinematics::MiniCheetahKinematics r(e.enc, e.denc, one), y(dynamic_cast<kinematics::MiniCheetahKinematics&>(x));
    y.set_contact(one);
    V3 w(0.1, -0.2, 0.3);
    if (!near(y.get_init_velocity(w), r.get_init_velocity(w), 1e-12, 1e-12)) return mc::fmt("wrong joint velocities of leg %d", leg);
  }
  return "";
}
template <class Q>
std::string diff(Q q, const std::vector<Expected>& e, const char* what) {
  auto v = items(q);
  if (v.size() != e.size()) return mc::fmt("%s: %d measurements queued instead of %d", what, (int)v.size(), (int)e.size());
  for (size_t i = 0; i < v.size(); i++) {
    std::string s = cmp(*v[i], e[i]);
    if (!s.empty()) return mc::fmt("%s, measurement %d: ", what, (int)i) + s;
  }
  return "";
}
template <class M>
void deliver(const std::string& topic, const boost::shared_ptr<M>& msg) {
  for (auto& a : ros::stub::world()->subs[topic])
    std::any_cast<const boost::function<void(const boost::shared_ptr<const M>&)>&>(a)(msg);
}
template <class A, class B>
void deliver(const std::string& topics, const boost::shared_ptr<A>& x, const boost::shared_ptr<B>& y) {
  for (auto& f : ros::stub::world()->subs[topics])
    std::any_cast<const boost::function<void(const boost::shared_ptr<const A>&, const boost::shared_ptr<const B>&)>&>(f)(x, y);
}
// deterministic, pairwise different numbers
double val(int msg, int field) { return std::sin(1.0 + 7.3 * msg + 1.37 * field) * (1.0 + 0.1 * field); }

enum Kind { IMU, FETCH_IMU, TWIST, TWIST_COV, DIFF_V, DIFF_VW, FETCH_V, FETCH_VW, CHEETAH, ODOM, KINDS };
const char* kName[] = {"imu", "fetch imu", "twist", "twist with covariance", "differential drive", "differential drive with turn rate",
                       "fetch drive", "fetch drive with turn rate", "mini cheetah", "odometry"};
struct Source {
  Kind k;
  std::string t1, t2;
  IMUQueuePtr imu;
  VelocityQueuePtr vel;
  AngularVelocityQueuePtr av;
  LeggedKinQueuePtr leg;
  std::shared_ptr<std::mutex> m1, m2;
  std::vector<Expected> e, e2;
  double radius = 0, track = 0;
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity();  // odometry mounting
  bool have_prev = false;
  Eigen::Matrix4d prev;
  double prev_t = 0;
  void add(ros_wrapper::ROSSubscriber& s, int i) {
    t1 = mc::fmt("/topic%d", i);
    t2 = mc::fmt("/other%d", i);
    radius = 0.15 + 0.07 * i;
    track = 0.55 + 0.2 * i;
    switch (k) {
      case IMU: std::tie(imu, m1) = s.AddIMUSubscriber(t1); break;
      case FETCH_IMU: std::tie(imu, m1) = s.AddFetchIMUSubscriber(t1, t2); break;
      case TWIST: std::tie(vel, m1) = s.AddVelocitySubscriber(t1); break;
      case TWIST_COV: std::tie(vel, m1) = s.AddVelocityWithCovarianceSubscriber(t1); break;
      case DIFF_V: std::tie(vel, m1) = s.AddDifferentialDriveVelocitySubscriber(t1, radius); break;
      case DIFF_VW: std::tie(vel, m1, av, m2) = s.AddDifferentialDriveVelocitySubscriber(t1, radius, track); break;
      case FETCH_V: std::tie(vel, m1) = s.AddDifferentialDriveLinearVelocitySubscriber_Fetch(t1, radius); break;
      case FETCH_VW: std::tie(vel, m1, av, m2) = s.AddDifferentialDriveVelocitySubscriber_Fetch(t1, radius, track); break;
      case CHEETAH: std::tie(leg, m1) = s.AddMiniCheetahKinematicsSubscriber(t1, t2); break;
      case ODOM: {
        std::vector<double> tr = i == 0 ? std::vector<double>{0.3, -0.1, 0.2} : std::vector<double>{0, 0.5, 0};
        std::vector<double> q = i == 0 ? std::vector<double>{0.8, 0, 0, 0.6} : i == 1 ? std::vector<double>{1, 0, 0, 0} : std::vector<double>{0.5, 0.5, -0.5, 0.5};
        T.block<3, 3>(0, 0) = quatR(q);
        T.block<3, 1>(0, 3) = V3(tr[0], tr[1], tr[2]);
        std::tie(vel, m1) = s.AddOdom2VelocityCallback(t1, tr, q);
        break;
      }
      default: break;
    }
  }
  static int variants(Kind k) {
    switch (k) {
      case IMU: case FETCH_IMU: return 4;
      case DIFF_V: case DIFF_VW: case FETCH_V: case FETCH_VW: return 5;
      case CHEETAH: return 5;
      case ODOM: return 4;
      default: return 2;
    }
  }
  // deliver message number n of the given variant and say what should arrive
  void send(mc::MC& m, int n, int var, bool counted = true) {
    Expected x;
    std_msgs::Header h;
    h.seq = n == 0 ? 0 : n == 1 ? 4294967295u : 17 + n;
    h.stamp = var == 1 ? ros::Time(1700000000u + n, 123456789) : ros::Time(10 + n, n * 250000000);
    h.frame_id = n % 2 ? mc::fmt("frame%d", n) : "";
    x.seq = h.seq;
    x.t = h.stamp.sec + h.stamp.nsec / 1e9;
    x.frame = h.frame_id;
    auto wheels = [&](size_t cnt) {
      auto j = boost::make_shared<sensor_msgs::JointState>();
      j->header = h;
      for (size_t i = 0; i < cnt; i++) j->velocity.push_back(10 * val(n, i));
      j->velocity.shrink_to_fit();
      return j;
    };
    bool threw = false;
    auto guarded = [&](std::function<void()> f) {
      try { f(); } catch (const std::exception&) { threw = true; }
    };
    switch (k) {
      case IMU: case FETCH_IMU: {
        auto msg = boost::make_shared<sensor_msgs::Imu>();
        msg->header = h;
        msg->angular_velocity.x = val(n, 0); msg->angular_velocity.y = val(n, 1); msg->angular_velocity.z = val(n, 2);
        msg->linear_acceleration.x = val(n, 3); msg->linear_acceleration.y = val(n, 4); msg->linear_acceleration.z = 9.8 + val(n, 5);
        // orientation: given, absent, not a unit quaternion, given (another)
        if (var == 0 || var == 3) {
          x.has_q = true;
          x.q = var ? std::array<double, 4>{{0.5, 0.5, -0.5, 0.5}} : std::array<double, 4>{{0.6, 0, -0.8, 0}};
        }
        std::array<double, 4> q = var == 1 ? std::array<double, 4>{{0, 0, 0, 0}} : var == 2 ? std::array<double, 4>{{0.6, 0.6, 0.6, 0}} : x.q;
        msg->orientation.w = q[0]; msg->orientation.x = q[1]; msg->orientation.y = q[2]; msg->orientation.z = q[3];
        x.a = V3(val(n, 0), val(n, 1), val(n, 2));
        x.b = V3(val(n, 3), val(n, 4), 9.8 + val(n, 5));
        if (k == IMU) {
          guarded([&] { deliver(t1, msg); });
        } else {
          auto off = boost::make_shared<geometry_msgs::Vector3Stamped>();
          off->header = h;
          off->header.seq = 999; off->header.frame_id = "offset";
          off->vector.x = val(n, 6); off->vector.y = val(n, 7); off->vector.z = val(n, 8);
          x.a += V3(val(n, 6), val(n, 7), val(n, 8));
          guarded([&] { deliver(t1 + "+" + t2, msg, off); });
        }
        if (var != 2) e.push_back(x);
        break;
      }
      case TWIST: {
        auto msg = boost::make_shared<geometry_msgs::TwistStamped>();
        msg->header = h;
        msg->twist.linear.x = val(n, 0); msg->twist.linear.y = val(n, 1); msg->twist.linear.z = val(n, 2);
        msg->twist.angular.x = val(n, 3); msg->twist.angular.y = val(n, 4); msg->twist.angular.z = val(n, 5);
        x.a = V3(val(n, 0), val(n, 1), val(n, 2));
        deliver(t1, msg);
        e.push_back(x);
        break;
      }
      case TWIST_COV: {
        auto msg = boost::make_shared<geometry_msgs::TwistWithCovarianceStamped>();
        msg->header = h;
        msg->twist.twist.linear.x = val(n, 0); msg->twist.twist.linear.y = val(n, 1); msg->twist.twist.linear.z = val(n, 2);
        msg->twist.twist.angular.x = val(n, 3);
        x.a = V3(val(n, 0), val(n, 1), val(n, 2));
        deliver(t1, msg);
        e.push_back(x);
        break;
      }
      case DIFF_V: case DIFF_VW: {
        auto msg = wheels(var == 2 ? 3 : var == 3 ? 0 : var == 4 ? 6 : 4);
        guarded([&] { deliver(t1, msg); });
        if (msg->velocity.size() < 4) break;
        double r = (msg->velocity[1] + msg->velocity[3]) / 2 * radius, l = (msg->velocity[0] + msg->velocity[2]) / 2 * radius;
        x.a = V3((r + l) / 2, 0, 0);
        e.push_back(x);
        x.a = V3(0, 0, (r - l) / track);
        if (k == DIFF_VW) e2.push_back(x);
        break;
      }
      case FETCH_V: case FETCH_VW: {
        auto msg = wheels(var == 2 ? 2 : var == 3 ? 0 : var == 4 ? 1 : 3 + n);
        guarded([&] { deliver(t1, msg); });
        if (msg->velocity.size() <= 2) break;  // the wheel array is longer than 2
        double r = msg->velocity[1] * radius, l = msg->velocity[0] * radius;
        x.a = V3((r + l) / 2, 0, 0);
        e.push_back(x);
        x.a = V3(0, 0, (r - l) / track);
        if (k == FETCH_VW) e2.push_back(x);
        break;
      }
      case CHEETAH: {
        auto c = boost::make_shared<custom_sensor_msgs::ContactArray>();
        auto j = boost::make_shared<sensor_msgs::JointState>();
        c->header = h;
        j->header = h;
        j->header.seq = 55; j->header.frame_id = "joints"; j->header.stamp = ros::Time(5, 0);
        size_t nc = var == 2 ? 3 : 4, np = var == 3 ? 11 : 12, nv = var == 4 ? 11 : 12;
        for (size_t i = 0; i < nc; i++) {
          custom_sensor_msgs::Contact ct;
          ct.id = i;
          ct.indicator = ((n * 5 + 3) >> i) & 1;
          c->contacts.push_back(ct);
          x.contact[i] = ct.indicator;
        }
        c->contacts.shrink_to_fit();
        x.enc.resize(12);
        x.denc.resize(12);
        for (size_t i = 0; i < 12; i++) { x.enc(i) = val(n, i); x.denc(i) = val(n, i + 12); }
        for (size_t i = 0; i < np; i++) j->position.push_back(x.enc(i));
        for (size_t i = 0; i < nv; i++) j->velocity.push_back(x.denc(i));
        j->position.shrink_to_fit();
        j->velocity.shrink_to_fit();
        guarded([&] { deliver(t1 + "+" + t2, c, j); });
        if (var <= 1) e.push_back(x);
        break;
      }
      case ODOM: {
        auto msg = boost::make_shared<nav_msgs::Odometry>();
        // variants: motion with rotation, a repeated stamp, straight motion, standing still
        double dt = n % 2 ? 0.5 : 0.1;
        Eigen::Matrix4d cur = Eigen::Matrix4d::Identity();
        V3 w = var == 0 ? V3(val(n, 0), val(n, 1), val(n, 2)) : V3(V3::Zero()), v = var == 3 ? V3(V3::Zero()) : V3(val(n, 3), 2 + val(n, 4), val(n, 5));
        if (have_prev) {
          // body motion with constant body velocity v and rate w over dt; the odometry source moves with it
          Mat tw = Mat::Zero(4, 4);
          tw.block(0, 0, 3, 3) = ref::hat(w * dt);
          tw.block(0, 3, 3, 1) = v * dt;
          Eigen::Matrix4d B = ref::expm(tw);
          cur = prev * T * B * T.inverse();
          if (var == 1) { cur = prev; dt = 0; }
        } else {
          cur.block<3, 3>(0, 0) = ref::exp_so3(V3(0.2, -0.4, 0.9));
          cur.block<3, 1>(0, 3) = V3(5, 6, 7);
        }
        double t = have_prev ? prev_t + dt : 20.0 + n;
        h.stamp = ros::Time(t);
        t = h.stamp.toSec();
        x.t = t;
        msg->header = h;
        Eigen::Quaterniond q(M3(cur.block<3, 3>(0, 0)));
        msg->pose.pose.position.x = cur(0, 3); msg->pose.pose.position.y = cur(1, 3); msg->pose.pose.position.z = cur(2, 3);
        msg->pose.pose.orientation.w = q.w(); msg->pose.pose.orientation.x = q.x(); msg->pose.pose.orientation.y = q.y(); msg->pose.pose.orientation.z = q.z();
        msg->twist.twist.linear.x = 77;
        guarded([&] { deliver(t1, msg); });
        if (have_prev && dt > 0) {
          double d = t - prev_t;
          x.a = v * dt / d;
          e.push_back(x);
        }
        have_prev = true;
        prev = cur;
        prev_t = t;
        break;
      }
      default: break;
    }
    if (!counted) return;
    if (threw) m.count("messages rejected with an exception");
    m.step();
  }
  std::string check() {
    std::string s;
    if (imu) s = diff(imu, e, kName[k]);
    if (vel && s.empty()) s = diff(vel, e, kName[k]);
    if (av && s.empty()) s = diff(av, e2, (std::string(kName[k]) + " turn rate").c_str());
    if (leg && s.empty()) s = diff(leg, e, kName[k]);
    return s;
  }
};
}  // namespace rossrc

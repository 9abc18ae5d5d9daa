#include "demo.hpp"
#include "communication/ros_publisher.h"
#include "communication/ros_subscriber.h"
int main() {
  ros::stub::World w;
  ros::stub::world() = &w;
  ros::NodeHandle nh;
  ros_wrapper::ROSSubscriber sub(&nh);
  auto t = sub.AddDifferentialDriveVelocitySubscriber("wheels", 0.5, 0.8);
  auto m = boost::make_shared<sensor_msgs::JointState>();
  m->velocity = {1, 2, 3, 5};
  boost::shared_ptr<const sensor_msgs::JointState> c = m;
  typedef boost::function<void(const boost::shared_ptr<const sensor_msgs::JointState>&)> F;
  for (auto& a : w.subs["wheels"]) std::any_cast<const F&>(a)(c);
  auto v = std::get<0>(t);
  auto a = std::get<2>(t);
  expect(v->size() == 1 && a->size() == 1, "one measurement each");
  double vr = 0.5 * (2 + 5) / 2, vl = 0.5 * (1 + 3) / 2;
  expect(std::fabs(v->front()->get_velocity()(0) - (vr + vl) / 2) < 1e-12, "speed");
  expect(std::fabs(a->front()->get_angular_velocity()(2) - (vr - vl) / 0.8) < 1e-12, "turn rate");
  w.shutdown();
  puts("DEMO ok");
}

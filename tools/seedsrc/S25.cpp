#include "demo.hpp"
#include <thread>
#include "communication/ros_publisher.h"
int main() {
  put("p.yaml", "publishers:\n  pose_publish_topic: pose\n  path_publish_topic: path\n  pose_frame: odom\n  pose_publish_rate: 50\n  path_publish_rate: 20\n");
  ros::stub::World w;
  ros::stub::world() = &w;
  ros::NodeHandle nh;
  auto q = std::make_shared<std::queue<std::shared_ptr<state::RobotState>>>();
  auto m = std::make_shared<std::mutex>();
  size_t in_path = 0, poses = 0;
  {
    ros_wrapper::ROSPublisher pub(&nh, q, m, std::string("p.yaml"));
    for (int i = 0; i < 6; i++) {
      auto s = std::make_shared<state::RobotState>();
      s->set_time(1 + i);
      q->push(s);
    }
    pub.StartPublishingThread();
    for (int i = 0; i < 7; i++) expect(w.iterate(50), "the pose loop turns");
    for (int i = 0; i < 2; i++) expect(w.iterate(20), "the path loop turns");
    for (auto& o : w.out) {
      if (o.topic == "pose") poses++;
      if (o.topic == "path") in_path = std::any_cast<nav_msgs::Path>(o.msg).poses.size();
    }
    w.shutdown();
  }
  expect(poses == 6, "six poses");
  expect(in_path == 3, "every second pose is in the path");
  puts("DEMO ok");
}

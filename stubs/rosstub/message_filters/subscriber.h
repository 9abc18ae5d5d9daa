#pragma once
#include "ros/ros.h"
namespace message_filters {
template <class M>
struct Subscriber {
  std::string topic;
  Subscriber(ros::NodeHandle&, const std::string& t, uint32_t) : topic(t) {}
};
}

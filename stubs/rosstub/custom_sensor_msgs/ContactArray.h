#pragma once
#include "custom_sensor_msgs/Contact.h"
namespace custom_sensor_msgs {
struct ContactArray {
  std_msgs::Header header;
  std::vector<Contact> contacts;
};
}

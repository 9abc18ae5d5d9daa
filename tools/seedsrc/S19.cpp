#include "demo.hpp"
int main() {
  ImuMeasurement<double> m;
  m.set_quaternion(0.6, 0.8, 0, 0);
  bool thrown = false;
  try {
    m.set_quaternion(1, 1, 0, 0);
  } catch (const std::invalid_argument&) {
    thrown = true;
  }
  expect(thrown, "rejected");
  expect(m.get_quaternion().w() == 0.6 && m.get_quaternion().x() == 0.8 && m.get_quaternion().y() == 0, "the stored orientation is unchanged");
  puts("DEMO ok");
}

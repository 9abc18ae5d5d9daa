#include "demo.hpp"
#include "drift/state/robot_state.h"
using namespace state;
int main() {
  RobotState s;
  std::vector<std::shared_ptr<int>> id;
  for (int i = 0; i < 3; i++) {
    id.push_back(std::make_shared<int>(5 + i));
    int n = s.dimP() + 3;
    s.add_aug_state(Eigen::Vector3d(i, i, i), Eigen::MatrixXd::Identity(n, n), (i + 1) * Eigen::Matrix3d::Identity(), id[i]);
  }
  s.del_aug_state(5);
  Eigen::MatrixXd Q = s.get_continuous_noise_covariance();
  expect(Q(9, 9) == 2 && Q(12, 12) == 3, "the remaining vectors keep their own process noise");
  puts("DEMO ok");
}

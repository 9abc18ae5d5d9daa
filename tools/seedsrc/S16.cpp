#include "demo.hpp"
#include "drift/math/lie_group.h"
int main() {
  Eigen::VectorXd v(9);
  v << 4e-6, -3e-6, 2e-6, 1, 2, 3, 4, 5, 6;
  Eigen::MatrixXd X = math::lie_group::Exp_SEK3(v);
  Eigen::Matrix3d A = math::lie_group::skew(v.head<3>());
  Eigen::Matrix3d R = Eigen::Matrix3d::Identity() + A + 0.5 * A * A;
  expect((X.block<3, 3>(0, 0) - R).norm() < 1e-12, "rotation of a few micro-radians");
  Eigen::Vector3d t = (Eigen::Matrix3d::Identity() + 0.5 * A) * v.segment<3>(3);
  expect((X.block<3, 1>(0, 3) - t).norm() < 1e-9, "translation");
  puts("DEMO ok");
}

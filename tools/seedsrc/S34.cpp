#include "demo.hpp"
#include "drift/math/lie_group.h"
int main() {
  for (double th : {0.05, 0.3, 1.0, 2.5}) {
    Eigen::Vector3d w = th * Eigen::Vector3d(1, 2, -2) / 3;
    Eigen::Matrix3d A = math::lie_group::skew(w), T = Eigen::Matrix3d::Identity() / 6, S = T;
    for (int n = 1; n < 40; n++) {
      T = (T * A / (n + 3)).eval();
      S += T;
    }
    expect((math::lie_group::Gamma_SO3(w, 3) - S).norm() < 1e-6, "third integral equals its series");
  }
  puts("DEMO ok");
}

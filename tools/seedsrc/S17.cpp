#include "demo.hpp"
int main() {
  // moving one leg's joints along a numerical derivative of its foot position
  Eigen::VectorXd e(12), d(12);
  for (int i = 0; i < 12; i++) e(i) = 0.1 * (i + 1), d(i) = 0.3 - 0.07 * i;
  for (int leg = 0; leg < 4; leg++) {
    Eigen::Matrix<bool, Eigen::Dynamic, 1> c(4);
    c << (leg == 0), (leg == 1), (leg == 2), (leg == 3);
    auto pos = [&](double h) {
      measurement::kinematics::MiniCheetahKinematics k(e + h * d, d, c);
      k.ComputeKinematics();
      return Eigen::Vector3d(k.get_kin_pos(leg));
    };
    Eigen::Vector3d pd = (pos(1e-5) - pos(-1e-5)) / 2e-5, w(0.2, -0.4, 0.6);
    measurement::kinematics::MiniCheetahKinematics k(e, d, c);
    Eigen::Vector3d v = k.get_init_velocity(w);
    // the foot stands still: v + w x p + dp/dt = 0
    expect((v + w.cross(pos(0)) + pd).norm() < 1e-6, "the stance foot stands still");
  }
  puts("DEMO ok");
}

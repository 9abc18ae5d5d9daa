// C18: leg kinematics, compared with a kinematic chain multiplied out from elementary rotations.
#include "kit.hpp"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/p_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/R_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/H_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jp_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Js_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jvs_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jwb_Body_to_HindLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_FrontLeftFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindRightFoot.h"
#include "drift/kinematics/robots/mini_cheetah/Jws_Body_to_HindLeftFoot.h"
using namespace kit;
using measurement::kinematics::MiniCheetahKinematics;

namespace {
typedef Eigen::Matrix<double, 12, 1> V12;
typedef Eigen::Matrix<double, 3, 12> M312;
typedef Eigen::Matrix<double, 6, 12> M612;
typedef Eigen::Matrix4d M4;
struct Fn {
  V3 (*p)(const V12&);
  M3 (*R)(const V12&);
  M4 (*H)(const V12&);
  M312 (*Jp)(const V12&);
  M612 (*Jb)(const V12&);
  M612 (*Js)(const V12&);
  M312 (*Jvb)(const V12&);
  M312 (*Jvs)(const V12&);
  M312 (*Jwb)(const V12&);
  M312 (*Jws)(const V12&);
};
const Fn FN[4] = {
    {p_Body_to_FrontRightFoot, R_Body_to_FrontRightFoot, H_Body_to_FrontRightFoot, Jp_Body_to_FrontRightFoot, Jb_Body_to_FrontRightFoot, Js_Body_to_FrontRightFoot, Jvb_Body_to_FrontRightFoot, Jvs_Body_to_FrontRightFoot, Jwb_Body_to_FrontRightFoot, Jws_Body_to_FrontRightFoot},
    {p_Body_to_FrontLeftFoot, R_Body_to_FrontLeftFoot, H_Body_to_FrontLeftFoot, Jp_Body_to_FrontLeftFoot, Jb_Body_to_FrontLeftFoot, Js_Body_to_FrontLeftFoot, Jvb_Body_to_FrontLeftFoot, Jvs_Body_to_FrontLeftFoot, Jwb_Body_to_FrontLeftFoot, Jws_Body_to_FrontLeftFoot},
    {p_Body_to_HindRightFoot, R_Body_to_HindRightFoot, H_Body_to_HindRightFoot, Jp_Body_to_HindRightFoot, Jb_Body_to_HindRightFoot, Js_Body_to_HindRightFoot, Jvb_Body_to_HindRightFoot, Jvs_Body_to_HindRightFoot, Jwb_Body_to_HindRightFoot, Jws_Body_to_HindRightFoot},
    {p_Body_to_HindLeftFoot, R_Body_to_HindLeftFoot, H_Body_to_HindLeftFoot, Jp_Body_to_HindLeftFoot, Jb_Body_to_HindLeftFoot, Js_Body_to_HindLeftFoot, Jvb_Body_to_HindLeftFoot, Jvs_Body_to_HindLeftFoot, Jwb_Body_to_HindLeftFoot, Jws_Body_to_HindLeftFoot}};

M3 Rx(double a) { M3 r; r << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return r; }
M3 Ry(double a) { M3 r; r << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return r; }
M3 hat(const V3& w) { M3 r; r << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return r; }
// legs: 0 front right, 1 front left, 2 hind right, 3 hind left; joints: abduction, hip, knee
struct Chain {
  V3 p;
  M3 R, J, Jw;     // foot position and orientation in the body frame, d p / d q, body-frame axes
  Chain(int leg, const V3& q) {
    double fx = leg < 2 ? 1 : -1, fy = leg % 2 ? 1 : -1;
    V3 hip(0.19 * fx, 0.049 * fy, 0), ab(0, 0.062 * fy, 0), thigh(0, 0, -0.209), shank(0, 0, -0.2075);
    M3 A = Rx(q(0)), B = Ry(-q(1)), C = Ry(-q(2));
    V3 knee = B * (thigh + C * shank);
    p = hip + A * (ab + knee);
    R = A * B * C;
    J.col(0) = A * (hat(V3(1, 0, 0)) * (ab + knee));
    J.col(1) = A * (hat(V3(0, -1, 0)) * knee);
    J.col(2) = A * (B * (hat(V3(0, -1, 0)) * (C * shank)));
    Jw.col(0) = V3(1, 0, 0);
    Jw.col(1) = A * V3(0, -1, 0);
    Jw.col(2) = A * V3(0, -1, 0);
  }
};
const char* NAME[4] = {"front right", "front left", "hind right", "hind left"};
const std::vector<double> GRID = {0, 0.35, -0.8, 1.5707963267948966, -1.9, 2.7, -3.1, 1e-7, 4.0};
const std::vector<double> GRID_T = {0, 0.35, -0.8, 1.5707963267948966, -1.9, 2.7, -3.1, 1e-7, 4.0, -0.2, 0.9, -1.2, 2.1, -2.4, 3.141592653589793, -6.0, 7.5};

void program(mc::MC& m) {
  const auto& g = m.thorough ? GRID_T : GRID;
  int leg = m.choose(4, "leg");
  V3 q;
  for (int i = 0; i < 3; i++) q(i) = g[m.choose((int)g.size(), i == 0 ? "abduction" : i == 1 ? "hip" : "knee")];
  int others = m.choose(3, "other joints");
  V12 e;
  for (int i = 0; i < 12; i++) e(i) = others == 0 ? 0 : others == 1 ? 0.3 * i - 1.5 : std::sin(7.0 * i) * 2.5;
  e.segment<3>(3 * leg) = q;
  std::string who = std::string(NAME[leg]) + mc::fmt(" leg at joints [%g %g %g]", q(0), q(1), q(2));
  auto eq = [&](const Mat& a, const Mat& b, const char* key, const std::string& what) {
    m.check(a.rows() == b.rows() && a.cols() == b.cols() && near(a, b, 1e-12, 1e-12), key,
            what + " of the " + who + ": [" + ms(a) + "], expected [" + ms(b) + "]");
  };
  Chain c(leg, q);
  // the generated functions
  const Fn& f = FN[leg];
  Mat J = Mat::Zero(3, 12), Jw = Mat::Zero(3, 12);
  J.block(0, 3 * leg, 3, 3) = c.J;
  Jw.block(0, 3 * leg, 3, 3) = c.Jw;
  M4 H = M4::Identity();
  H.block<3, 3>(0, 0) = c.R;
  H.block<3, 1>(0, 3) = c.p;
  m.step();
  eq(f.p(e), c.p, "p", "foot position");
  eq(f.R(e), c.R, "R", "foot orientation");
  eq(f.H(e), H, "H", "foot pose");
  eq(f.Jp(e), J, "Jp", "position Jacobian");
  Mat Jvb = c.R.transpose() * J, Jwb = c.R.transpose() * Jw, Jvs = J - hat(V3::Zero()) * Jw;
  for (int i = 0; i < 12; i++) Jvs.col(i) = J.col(i) - hat(V3(Jw.col(i))) * c.p;
  Mat Jb(6, 12), Js(6, 12);
  Jb << Jwb, Jvb;
  Js << Jw, Jvs;
  eq(f.Jvb(e), Jvb, "Jvb", "body-frame linear Jacobian");
  eq(f.Jwb(e), Jwb, "Jwb", "body-frame angular Jacobian");
  eq(f.Jvs(e), Jvs, "Jvs", "spatial linear Jacobian");
  eq(f.Jws(e), Jw, "Jws", "spatial angular Jacobian");
  eq(f.Jb(e), Jb, "Jb", "body Jacobian");
  eq(f.Js(e), Js, "Js", "spatial Jacobian");
  // the measurement object, through both ways of building it
  Eigen::Matrix<double, Eigen::Dynamic, 1> enc = e, denc(12);
  Eigen::Matrix<bool, Eigen::Dynamic, 1> con(4);
  std::vector<Chain> all;
  for (int l = 0; l < 4; l++) all.emplace_back(l, V3(e.segment<3>(3 * l)));
  MiniCheetahKinematics reused;                    // edited from one pattern to the next
  for (int pattern = 0; pattern < 16; pattern++)
    for (int v = 0; v < 3; v++) {
      for (int l = 0; l < 4; l++) con(l) = (pattern >> l) & 1;
      for (int i = 0; i < 12; i++) denc(i) = v == 0 ? 0 : v == 1 ? 0.7 - 0.11 * i : std::cos(3.0 * i + leg) * 4;
      V3 w = v == 0 ? V3(0, 0, 0) : v == 1 ? V3(0.3, -0.5, 0.9) : V3(-2, 0.4, 0.1);
      V3 want = V3::Zero();
      for (int l = 0; l < 4; l++)
        if (con(l)) {                              // the foot stands still: v + w x p + J dq = 0
          want = -(all[l].J * denc.segment<3>(3 * l)) - w.cross(all[l].p);
          break;
        }
      MiniCheetahKinematics k(enc, denc, con);
      for (int way = 0; way < 2; way++) {
        measurement::LeggedKinematicsMeasurement& x = way ? (measurement::LeggedKinematicsMeasurement&)reused : k;
        if (way) {
          x.set_joint_state(enc);
          x.set_joint_state_velocity(denc);
          x.set_contact(con);
        }
        m.step();
        std::string cs = mc::fmt("contacts %d%d%d%d", (int)con(0), (int)con(1), (int)con(2), (int)con(3));
        m.check(near(x.get_init_velocity(w), want, 1e-12, 1e-12), "init-velocity",
                mc::fmt("%s: initial velocity [%s], expected [%s]", cs.c_str(), ms(x.get_init_velocity(w).transpose()).c_str(), ms(want.transpose()).c_str()));
        x.ComputeKinematics();
        for (int l = 0; l < 4; l++) {
          eq(x.get_kin_pos(l), all[l].p, "leg-position", mc::fmt("reported position of leg %d (varied:", l));
          eq(x.get_J(l), all[l].J, "leg-jacobian", mc::fmt("reported Jacobian of leg %d (varied:", l));
          m.check(x.get_contact(l) == con(l), "contact", cs + mc::fmt(": leg %d reports the wrong contact", l));
        }
        for (int i = 0; i < 12; i++) m.check(x.get_joint_state(i) == e(i), "joint", mc::fmt("joint %d reads %g, set to %g", i, x.get_joint_state(i), e(i)));
        m.check(x.get_num_legs() == 4 && x.get_type() == LEGGED_KINEMATICS, "type", "wrong number of legs or measurement type");
        m.check(near(x.get_init_velocity(w), want, 1e-12, 1e-12), "init-velocity-after", cs + ": initial velocity changed by computing the kinematics");
      }
    }
  uint64_t h = 3;
  for (int l = 0; l < 3; l++) h = mc::hash_d(h, c.p(l));
  m.state(h);
  // mirror image and hip offset, directly on the code
  V12 em = V12::Zero();
  int mirror = leg ^ 1, hind = leg ^ 2;
  em.segment<3>(3 * mirror) = V3(-q(0), q(1), q(2));
  V3 pm = FN[mirror].p(em);
  eq(pm, V3(c.p(0), -c.p(1), c.p(2)), "mirror", "mirror image");
  V12 eh = V12::Zero();
  eh.segment<3>(3 * hind) = q;
  V3 ph = FN[hind].p(eh);
  eq(ph, V3(c.p(0) + (leg < 2 ? -0.38 : 0.38), c.p(1), c.p(2)), "hip-offset", "front/hind counterpart");
  // a fresh object reports zeros and a zero velocity with every contact pattern
  MiniCheetahKinematics z;
  m.check(near(z.get_init_velocity(V3(1, 2, 3)), V3(V3::Zero()), 0, 0), "fresh", "a fresh measurement reports a velocity");
  m.validated();
}
}    // namespace

static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 2;
  o.what = "one leg at one joint configuration (other legs in one of three postures): all ten generated kinematic functions and the measurement object under all 16 contact patterns x 3 joint/body rate sets x both construction paths, compared with an independent kinematic chain";
  o.bounds = "4 legs x 9^3 (17^3) joint configurations x 3 postures of the other legs x 16 contact patterns x 3 rate sets x 2 construction paths";
  return o;
}
MC_MAIN(options)

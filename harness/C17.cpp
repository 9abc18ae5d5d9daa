// C17: Lie group functions against their defining series.
#include "kit.hpp"
#include "drift/math/lie_group.h"
#include "drift/math/se_k_3.h"
using namespace kit;
using namespace math;

static const std::vector<V3> AXIS = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(-1, 0, 0), V3(0.6, -0.8, 0), V3(0.48, 0.6, -0.64), V3(-0.36, 0.48, 0.8), V3(1, 1, 1) / std::sqrt(3.0)};
static std::vector<double> angles(bool thorough) {
  std::vector<double> a = {0};
  for (int e = -14; e <= 0; e++)
    for (double k : {1.0, 2.0, 4.9999, 5.0001, 9.99}) a.push_back(k * std::pow(10.0, e));
  for (double x : {0.0999999, 0.1000001, 0.5, 1.5707963, 2.0, 3.0, 3.14159, M_PI, 3.1416, 4.0, 5.0, 6.2, 2 * M_PI, 6.3, 8.0, 12.6}) a.push_back(x);
  if (thorough) for (int i = 1; i < 700; i++) a.push_back(i * 0.018 + 0.0007);
  std::sort(a.begin(), a.end());
  return a;
}
// sum over n of A^n / (n+m)!  -- the definition, in long double
static M3 gamma_series(const V3& w, int m) {
  using L = Eigen::Matrix<long double, 3, 3>;
  L A = ref::hat(w).cast<long double>(), T = L::Identity(), S = L::Zero();
  long double f = 1;
  for (int k = 2; k <= m; k++) f *= k;
  for (int n = 0; n < 110; n++) {
    S += T / f;
    T = (T * A).eval();
    f *= (n + m + 1);
  }
  return S.cast<double>();
}
static Mat wedge(const Vec& v) {
  int K = (int)(v.size() - 3) / 3;
  Mat x = Mat::Zero(3 + K, 3 + K);
  x.block(0, 0, 3, 3) = ref::hat(v.head(3));
  for (int i = 0; i < K; i++) x.block(0, 3 + i, 3, 1) = v.segment(3 + 3 * i, 3);
  return x;
}

static void program(mc::MC& m) {
  int what = m.choose(5, "function");
  auto eq = [&](const Mat& got, const Mat& exp, double tol, const std::string& key, const std::string& msg) {
    m.step();
    m.check(got.rows() == exp.rows() && got.cols() == exp.cols(), key, msg + mc::fmt(": size %dx%d, expected %dx%d", (int)got.rows(), (int)got.cols(), (int)exp.rows(), (int)exp.cols()));
    m.check(got.allFinite() && (got - exp).cwiseAbs().maxCoeff() <= tol, key, msg + ": got [" + ms(got) + "], expected [" + ms(exp) + "]");
    uint64_t h = 7;
    for (int i = 0; i < got.size(); i++) h = mc::hash_d(h, got.data()[i]);
    m.state(h);
  };
  if (what == 0) {          // SO(3)
    auto an = angles(m.thorough);
    double th = an[m.choose(an.size(), "angle")];
    V3 w = th * AXIS[m.choose(AXIS.size(), "axis")];
    std::string d = mc::fmt("angle %.17g axis [%s]", th, ms(w.transpose()).c_str());
    for (int k = 0; k <= 5; k++) {
      M3 e = gamma_series(w, k), g = lie_group::Gamma_SO3(w, k);
      eq(g, e, th < 3.5 ? 1e-9 : 1e-8, mc::fmt("gamma%d", k), mc::fmt("Gamma_%d at ", k) + d);
      // the leading correction term must be right relative to its own size, not only next to the identity
      M3 c0 = gamma_series(V3::Zero(), k);
      double sz = (e - c0).cwiseAbs().maxCoeff();
      if (th >= 1e-7 && k <= 3) m.check((g - e).cwiseAbs().maxCoeff() <= 1e-6 * sz + 4e-16, mc::fmt("gamma%d-small", k), mc::fmt("Gamma_%d loses its angle-dependent part at ", k) + d);
    }
    eq(lie_group::Exp_SO3(w), ref::expm(ref::hat(w)), 1e-9, "exp", "Exp_SO3 at " + d);
    eq(lie_group::LeftJacobian_SO3(w), gamma_series(w, 1), 1e-9, "left-jacobian", "left Jacobian at " + d);
    eq(lie_group::RightJacobian_SO3(w), gamma_series(-w, 1), 1e-9, "right-jacobian", "right Jacobian at " + d);
    M3 E = lie_group::Exp_SO3(w);
    eq(E * E.transpose(), M3::Identity(), 1e-9, "exp", "Exp_SO3 is not orthogonal at " + d);
    eq(lie_group::skew(w), ref::hat(w), 0, "skew", "skew of " + d);
    V3 u(0.3, -2, 5);
    eq(lie_group::skew(w) * u, w.cross(u), 1e-12 * (1 + th), "skew", "skew is not the cross product for " + d);
  } else if (what == 1) {   // SE_K(3) exponential
    auto an = angles(m.thorough);
    double th = an[m.choose(an.size(), "angle")];
    V3 w = th * AXIS[m.choose(AXIS.size(), "axis")];
    for (int K = 0; K <= 6; K++)
      for (double s : {1.0, 0.001, 40.0}) {
        Vec v(3 + 3 * K);
        v.head(3) = w;
        for (int i = 0; i < 3 * K; i++) v(3 + i) = s * std::sin(1.7 * i + 0.4);
        eq(lie_group::Exp_SEK3(v), ref::expm(wedge(v)), 6e-8 * (1 + s), "exp-sek3", mc::fmt("Exp_SEK3 with %d vectors of size %g at angle %.17g", K, s, th));
      }
  } else if (what == 2) {   // adjoint: X wedge(v) X^-1 = wedge(Ad v)
    int K = 1 + m.choose(6, "vectors");
    double th = std::vector<double>{0, 1e-9, 0.3, 2.9, 6.0}[m.choose(5, "angle")];
    V3 w = th * AXIS[m.choose(AXIS.size(), "axis")];
    double s = std::vector<double>{0, 0.7, 250}[m.choose(3, "size")];
    Mat X = Mat::Identity(3 + K, 3 + K);
    X.block(0, 0, 3, 3) = ref::exp_so3(w);
    for (int i = 0; i < K; i++) X.block(0, 3 + i, 3, 1) = s * V3(std::sin(i + 1.0), std::cos(2.0 * i), 0.5 - i);
    Mat Ad = lie_group::Adjoint_SEK3(X);
    eq(Mat(Ad.rows(), Ad.cols()), Mat(3 + 3 * K, 3 + 3 * K), 1e300, "adjoint", "Adjoint_SEK3");
    Mat Xi = X.inverse();
    for (int i = 0; i < 3 + 3 * K; i++) {
      Vec v = Vec::Zero(3 + 3 * K);
      v(i) = 1;
      eq(wedge(Ad * v), X * wedge(v) * Xi, 1e-10 * (1 + s), "adjoint", mc::fmt("Adjoint_SEK3 with %d vectors, column %d", K, i));
    }
    eq(lie_group::Adjoint_SEK3(Xi) * Ad, Mat::Identity(3 + 3 * K, 3 + 3 * K), 1e-9 * (1 + s * s), "adjoint", "Adjoint of the inverse");
  } else if (what == 3) {   // group elements
    int K = 1 + m.choose(6, "vectors");
    auto element = [&](int k) {
      Mat X = Mat::Identity(3 + K, 3 + K);
      X.block(0, 0, 3, 3) = ref::exp_so3((0.2 + 1.3 * k) * AXIS[(3 * k + 4) % 8]);
      for (int i = 0; i < K; i++) X.block(0, 3 + i, 3, 1) = (1 + 3.0 * k) * V3(std::sin(i + 1.0 + k), std::cos(2.0 * i), 0.5 - i);
      return X;
    };
    Mat A = element(m.choose(3, "first")), B = element(m.choose(3, "second"));
    SEK3 a(A), b(B);
    eq(a.get_X(), A, 0, "sek3", "stored element");
    m.check(a.get_dim() == 3 + K, "sek3", "dimension");
    eq((a * b).get_X(), A * B, 1e-12 * (1 + A.cwiseAbs().maxCoeff() * B.cwiseAbs().maxCoeff()), "sek3", "product");
    eq(a.inverse().get_X() * A, Mat::Identity(3 + K, 3 + K), 1e-9, "sek3-inverse", mc::fmt("inverse with %d vectors", K));
    eq((a * a.inverse()).get_X(), Mat::Identity(3 + K, 3 + K), 1e-9, "sek3-inverse", mc::fmt("product with the inverse, %d vectors", K));
    eq(a.get_X(), A, 0, "sek3", "operand was changed");
    eq(b.get_X(), B, 0, "sek3", "operand was changed");
    eq(a.get_R(), A.block(0, 0, 3, 3), 0, "sek3", "get_R");
    eq(a.get_p(), A.block(0, 3, 3, 1), 0, "sek3", "get_p");
    if (K >= 2) eq(a.get_v(), A.block(0, 4, 3, 1), 0, "sek3", "get_v");
    a.set_K(7);
    m.check(a.get_K() == 7 && a.inverse().get_K() == 7 && (a * b).get_K() == 7, "sek3", "K is not carried");
  } else {                  // setter sequences on a group element
    SEK3 e;
    Mat X = Mat::Identity(5, 5);
    eq(e.get_X(), X, 0, "sek3", "default element");
    for (int i = 0; i < (m.thorough ? 6 : 5); i++) {
      int op = m.choose(6, "setter");
      M3 R = ref::exp_so3((0.3 + i) * AXIS[(i + 4) % 8]);
      V3 x(1.0 + i, -2.0 * i, 0.5);
      if (op == 0) { e.set_R(R); X.block(0, 0, 3, 3) = R; }
      if (op == 1) { e.set_p(x); X.block(0, 3, 3, 1) = x; }
      if (op == 2) { e.set_v(x); X.block(0, 4, 3, 1) = x; }
      if (op == 3) { Mat Y = Mat::Identity(5, 5); Y.block(0, 0, 3, 3) = R; Y.block(0, 3, 3, 1) = -x; e.set_X(Y); X = Y; }
      if (op == 4) { e = SEK3(R, x); X = Mat::Identity(5, 5); X.block(0, 0, 3, 3) = R; X.block(0, 3, 3, 1) = x; }
      if (op == 5) { e = SEK3(R, x, 2 * x); X = Mat::Identity(5, 5); X.block(0, 0, 3, 3) = R; X.block(0, 3, 3, 1) = x; X.block(0, 4, 3, 1) = 2 * x; }
      eq(e.get_X(), X, 0, "sek3", "element after setters");
      eq(e.get_R(), X.block(0, 0, 3, 3), 0, "sek3", "get_R");
      eq(e.get_p(), X.block(0, 3, 3, 1), 0, "sek3", "get_p");
      eq(e.get_v(), X.block(0, 4, 3, 1), 0, "sek3", "get_v");
      eq(e.inverse().get_X() * X, Mat::Identity(5, 5), 1e-9, "sek3-inverse", "inverse after setters");
    }
  }
  for (int n = 0; n <= 8; n++) {
    long f = 1;
    for (int k = 2; k <= n; k++) f *= k;
    m.check(lie_group::factorial(n) == f, "factorial", mc::fmt("factorial(%d)", n));
  }
  m.validated();
}
static mc::Options options() {
  mc::Options o;
  o.program = program;
  o.split_depth = 2;
  o.what = "one function family evaluated by the real code at one grid point (or one setter sequence on a group element) and compared with the defining series, computed generically in long double or by matrix exponentials";
  o.bounds = "8 axes x 92 (791) angles from 0 and 1e-14 to 4 pi covering every decade and the switching points, integral orders 0-5, 0-6 augmented vectors of 3 sizes; adjoints of 1-6 vectors x 5 angles x 8 axes x 3 sizes; products and inverses of 1-6 vectors; all sequences of 5 (6) setters/constructors out of 6";
  return o;
}
MC_MAIN(options)

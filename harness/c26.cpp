// Rotations, twists, exponentials, rotation distances and roll-pitch-yaw against direct evaluation.
#include <arc_utilities/eigen_helpers.hpp>
#include "vh.hpp"
using namespace EigenHelpers;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Isometry3d I3;
static double num(double s) { return vh::R().coin(1, 4) ? 0.0 : vh::R().coin(1, 3) ? vh::R().in(-3, 3) * s : vh::R().real(-s, s); }
static V3 vec(double s) { return V3(num(s), num(s), num(s)); }
static V3 axis() { V3 v; do v = vec(1); while (v.norm() < 1e-3); return v.normalized(); }
static double ang() { static const double k[] = {0, M_PI / 2, -M_PI / 2, M_PI / 3, 1e-3, 1e-7}; return vh::R().coin(1, 3) ? k[vh::R().in(0, 5)] : vh::R().real(-3.1, 3.1); }
static M3 rot(const V3& u, double a) { const double c = std::cos(a), s = std::sin(a); M3 k; k << 0, -u[2], u[1], u[2], 0, -u[0], -u[1], u[0], 0; return M3::Identity() + s * k + (1 - c) * (k * k); }
static std::string str(const Eigen::MatrixXd& m) { std::ostringstream s; s.precision(17); s << "["; for (int c = 0; c < m.cols(); c++) for (int r = 0; r < m.rows(); r++) s << (r + c ? " " : "") << m(r, c); s << "]"; return s.str(); }
static bool near(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && ((a - b).size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol); }
static Eigen::Matrix4d hat(const V6& w) { Eigen::Matrix4d m = Eigen::Matrix4d::Zero(); m(0, 1) = -w[5]; m(1, 0) = w[5]; m(0, 2) = w[4]; m(2, 0) = -w[4]; m(1, 2) = -w[3]; m(2, 1) = w[3]; for (int k = 0; k < 3; k++) m(k, 3) = w[k]; return m; }
static Eigen::Matrix4d expm(Eigen::Matrix4d a) {      // scaling and squaring of the series
  int k = 0;
  while (a.cwiseAbs().maxCoeff() > 0.01) a /= 2, k++;
  Eigen::Matrix4d r = Eigen::Matrix4d::Identity(), t = r;
  for (int n = 1; n < 14; n++) t = t * a / n, r += t;
  while (k--) r = r * r;
  return r;
}
static void rotations() {
  Q q(num(1), num(1), num(1), num(1));
  if (q.norm() < 1e-3) q = Q(1, 0, 0, 0);
  if (vh::R().coin(1, 2)) q.normalize(); else if (vh::R().coin(1, 2)) q.coeffs() *= 3;
  const V3 v = vec(10);
  const double n2 = q.squaredNorm();
  vh::begin_case("rotate " + str(v) + " by x y z w " + str(q.coeffs()));
  const V3 u = q.vec();
  const V3 ex = ((q.w() * q.w() - u.dot(u)) * v + 2 * u.dot(v) * u + 2 * q.w() * u.cross(v)) / n2, ey = ((q.w() * q.w() - u.dot(u)) * v + 2 * u.dot(v) * u - 2 * q.w() * u.cross(v)) / n2;
  VH_CHECK(near(RotateVector(q, v), ex, 1e-12 * (1 + v.norm())), "RotateVector gives " << str(RotateVector(q, v)) << " instead of " << str(ex));
  VH_CHECK(near(RotateVectorReverse(q, v), ey, 1e-12 * (1 + v.norm())), "RotateVectorReverse gives " << str(RotateVectorReverse(q, v)) << " instead of " << str(ey));
  const M3 s = Skew(v);
  const V3 w = vec(5);
  VH_CHECK(near(s * w, v.cross(w), 1e-12 * (1 + v.norm() * w.norm())) && near(s, -s.transpose(), 0), "Skew(v) w is not v x w");
  VH_CHECK(Unskew(s) == v, "Unskew gives " << str(Unskew(s)));
  // distances between rotations
  const V3 ax = axis(), bx = axis();
  const double a = ang(), b = ang();
  const M3 r1 = rot(bx, b), r2 = r1 * rot(ax, a);
  const Q q1(r1), q2(r2);
  const double dm = Distance(r1, r2), dq = Distance(q1, vh::R().coin(1, 2) ? q2 : Q(-q2.w(), -q2.x(), -q2.y(), -q2.z()));
  VH_CHECK(std::fabs(dm - std::fabs(a)) < 1e-6 && std::fabs(dq - std::fabs(a)) < 1e-6, "rotations " << a << " apart: distance of the matrices " << dm << ", of the quaternions " << dq);
  VH_CHECK(std::fabs(Distance(r1, r1)) < 1e-6 && std::fabs(Distance(q1, q1)) < 1e-6, "distance to itself " << Distance(r1, r1) << " " << Distance(q1, q1));
  I3 t1 = I3::Identity(), t2 = t1;
  t1.linear() = r1, t1.translation() = v, t2.linear() = r2, t2.translation() = w;
  const double al = vh::R().coin(1, 3) ? vh::R().in(0, 1) : vh::R().real(0, 1), td = Distance(t1, t2, al);
  VH_CHECK(std::fabs(td - ((1 - al) * (v - w).norm() + al * std::fabs(a))) < 1e-6, "distance of transforms " << td << " alpha " << al << " angle " << a << " offset " << (v - w).norm());
}
static void twists() {
  V6 w;
  const int z = vh::R().in(0, 9);
  const double sc = vh::R().coin(1, 6) ? 1e-6 : 2;
  w << (z == 0 ? V3(0, 0, 0) : vec(2)), (z == 1 ? V3(0, 0, 0) : V3(vec(sc)));
  if (w.tail<3>().norm() < 1e-7) w.tail<3>().setZero();      // the closed form loses all digits for tiny angles
  const double dt = vh::R().coin(1, 6) ? 0.0 : vh::R().coin(1, 3) ? vh::R().in(-2, 2) : vh::R().real(-1.5, 1.5);
  I3 t = I3::Identity();
  t.linear() = rot(axis(), ang()), t.translation() = vec(5);
  vh::begin_case("twist " + str(w) + " dt " + vh::num(dt) + " transform " + str(t.matrix()));
  VH_CHECK(near(TwistHat(w), hat(w), 0), "TwistHat gives " << str(TwistHat(w)));
  VH_CHECK(TwistUnhat(hat(w)) == w, "TwistUnhat gives " << str(TwistUnhat(hat(w))));
  const V6 m = TransformTwist(t, w), ad = AdjointFromTransform(t) * w;
  VH_CHECK(near(hat(m), t.matrix() * hat(w) * t.inverse().matrix(), 1e-10) && near(ad, m, 1e-12), "TransformTwist gives " << str(m) << ", the adjoint " << str(ad));
  VH_CHECK(near(TransformTwist(Eigen::Affine3d(t.matrix()), w), m, 1e-9), "TransformTwist of the affine transform gives " << str(TransformTwist(Eigen::Affine3d(t.matrix()), w)));
  const Eigen::Matrix4d e = ExpTwist(w, dt).matrix(), x = expm(hat(w) * dt);
  VH_CHECK(near(e, x, 1e-7), "ExpTwist gives " << str(e) << " instead of " << str(x));
  const V3 u = axis();
  const double a = ang();
  VH_CHECK(near(ExpMatrixExact(Skew(u), a), rot(u, a), 1e-12), "ExpMatrixExact about " << str(u) << " by " << a);
  // the twist between two transforms leads from one to the other
  I3 s = I3::Identity();
  s.linear() = t.linear() * rot(u, std::max(-3.0, std::min(3.0, a))), s.translation() = vec(5);
  const V6 b = TwistBetweenTransforms(t, s);
  VH_CHECK(near((t * ExpTwist(b, 1.0)).matrix(), s.matrix(), 1e-6), "TwistBetweenTransforms gives " << str(b) << ", which leads to " << str((t * ExpTwist(b, 1.0)).matrix()) << " instead of " << str(s.matrix()));
}
static void rpy() {
  const double r = ang(), p = ang(), y = ang();
  const V3 v = vec(10);
  vh::begin_case("rpy " + str(V3(r, p, y)) + " at " + str(v));
  const M3 x = rot(V3(1, 0, 0), r) * rot(V3(0, 1, 0), p) * rot(V3(0, 0, 1), y), z = rot(V3(0, 0, 1), y) * rot(V3(0, 1, 0), p) * rot(V3(1, 0, 0), r);
  VH_CHECK(near(QuaternionFromRPY(r, p, y).toRotationMatrix(), x, 1e-12), "QuaternionFromRPY gives " << str(QuaternionFromRPY(r, p, y).coeffs()));
  VH_CHECK(near(QuaternionFromUrdfRPY(r, p, y).toRotationMatrix(), z, 1e-12), "QuaternionFromUrdfRPY gives " << str(QuaternionFromUrdfRPY(r, p, y).coeffs()));
  Eigen::VectorXd c(6);
  c << v, r, p, y;
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = x, m.block<3, 1>(0, 3) = v;
  const I3 t = TransformFromRPY(v[0], v[1], v[2], r, p, y);
  VH_CHECK(near(t.matrix(), m, 1e-12) && near(TransformFromRPY(v, V3(r, p, y)).matrix(), m, 1e-12) && near(TransformFromRPY(c).matrix(), m, 1e-12), "TransformFromRPY gives " << str(t.matrix()));
  const auto back = [&](const V3& e) { return near(rot(V3(1, 0, 0), e[0]) * rot(V3(0, 1, 0), e[1]) * rot(V3(0, 0, 1), e[2]), x, 1e-7); };
  VH_CHECK(back(EulerAnglesFromRotationMatrix(x)) && back(EulerAnglesFromQuaternion(Q(x))) && back(EulerAnglesFromIsometry3d(t)), "Euler angles " << str(EulerAnglesFromRotationMatrix(x)));
  const Eigen::VectorXd d = TransformToRPY(t);
  VH_CHECK(d.size() == 6 && near(d.head<3>(), v, 0) && back(d.tail<3>()), "TransformToRPY gives " << str(d));
}
int main() {
  vh::init(3);
  vh::begin_section();
  while (vh::more()) rotations();
  vh::begin_section();
  while (vh::more()) twists();
  vh::begin_section();
  while (vh::more()) rpy();
  return vh::done();
}

// Interpolation, averages, distances and vector operations against direct evaluation in extended precision.
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/math_helpers.hpp>
#include <arc_utilities/vector_math.hpp>
#include "vh.hpp"
using namespace EigenHelpers;
typedef std::vector<double> V;
typedef long double LD;
static bool near(LD a, LD b, LD scale) { return std::fabs(a - b) <= 1e-11L * (scale + 1e-3L) || a == b; }
static double num() { switch (vh::R().in(0, 4)) { case 0: return vh::R().in(-5, 5); case 1: return vh::R().real(-1, 1); case 2: return vh::R().real(-1e6, 1e6); case 3: return vh::R().in(-64, 64) * 0.125; default: return vh::R().real(0, 1) * std::pow(10.0, vh::R().in(-9, 9)); } }
static V vec(int n) { V r(n); for (auto& x : r) x = num(); return r; }
static double mag(const V& v) { double m = 0; for (double x : v) m = std::max(m, std::abs(x)); return m; }
static void interp() {
  const double t = vh::R().coin(1, 4) ? num() : vh::R().coin(1, 4) ? vh::R().in(0, 1) : vh::R().real(0, 1);
  const int n = vh::R().in(0, 6), m = vh::R().coin(1, 8) ? vh::R().in(0, 6) : n;
  const V a = vec(n), b = vec(m);
  std::ostringstream d;
  d << "interpolate " << n << "/" << m << " ratio " << t;
  for (double x : a) d << " " << x;
  d << ";";
  for (double x : b) d << " " << x;
  vh::begin_case(d.str(), n > 0);
  const LD c = t < 0 ? 0 : t > 1 ? 1 : t;
  const V r = Interpolate(a, b, t);
  VH_CHECK(r.size() == (n == m ? a.size() : 0), "size " << r.size());
  for (size_t i = 0; i < r.size(); i++) {
    const LD w = a[i] * (1 - c) + b[i] * c;
    const double s = Interpolate(a[i], b[i], t);
    const auto p = Interpolate(std::make_pair(a[i], b[i]), std::make_pair(b[i], a[i]), t);
    VH_CHECK(near(r[i], w, std::abs(a[i]) + std::abs(b[i])) && near(s, w, std::abs(a[i]) + std::abs(b[i])) && near(p.first, w, std::abs(a[i]) + std::abs(b[i])), "element " << i << ": " << r[i] << " " << s << " " << p.first << " for " << double(w));
    VH_CHECK(near(p.second, b[i] * (1 - c) + a[i] * c, std::abs(a[i]) + std::abs(b[i])), "second of a pair: " << p.second);
    if (t <= 0) VH_CHECK(r[i] == a[i] && s == a[i], "not the first end: " << r[i]);
    if (t >= 1) VH_CHECK(r[i] == b[i] && s == b[i], "not the second end: " << r[i]);
  }
  if (n >= 3 && m >= 3) {
    const Eigen::Vector3d x(a[0], a[1], a[2]), y(b[0], b[1], b[2]), z = Interpolate(x, y, t);
    Eigen::VectorXd dx = x, dy = y;
    const Eigen::VectorXd dz = Interpolate(dx, dy, t);
    for (int k = 0; k < 3; k++) VH_CHECK(near(z[k], a[k] * (1 - c) + b[k] * c, std::abs(a[k]) + std::abs(b[k])) && z[k] == dz[k], "vector element " << k << " " << z[k]);
    LD e = 0;
    for (int k = 0; k < 3; k++) e += (LD(b[k]) - a[k]) * (LD(b[k]) - a[k]);
    VH_CHECK(near(SquaredDistance(x, y), e, e) && near(Distance(x, y), std::sqrt(e), std::sqrt(e)) && near(Distance(dx, dy), std::sqrt(e), std::sqrt(e)) && near(SquaredDistance(dx, dy), e, e), "distances of points " << Distance(x, y));
    const LD e2 = (LD(b[0]) - a[0]) * (LD(b[0]) - a[0]) + (LD(b[1]) - a[1]) * (LD(b[1]) - a[1]);
    VH_CHECK(near(SquaredDistance(Eigen::Vector2d(a[0], a[1]), Eigen::Vector2d(b[0], b[1])), e2, e) && near(Distance(Eigen::Vector2d(a[0], a[1]), Eigen::Vector2d(b[0], b[1])), std::sqrt(std::max(e2, 0.0L)), std::sqrt(e)), "distances of 2D points");
  }
  LD q = 0, nn = 0, su = 0;
  for (size_t i = 0; i < a.size(); i++) nn += LD(a[i]) * a[i], su += a[i];
  for (size_t i = 0; n == m && i < a.size(); i++) q += (LD(b[i]) - a[i]) * (LD(b[i]) - a[i]);
  if (n == m) VH_CHECK(near(SquaredDistance(a, b), q, q) && near(Distance(a, b), std::sqrt(q), std::sqrt(q)), "distance " << Distance(a, b));
  else VH_CHECK(std::isinf(SquaredDistance(a, b)) && std::isinf(Distance(a, b)), "distance of different sizes");
  VH_CHECK(near(SquaredNorm(a), nn, nn) && near(Norm(a), std::sqrt(nn), std::sqrt(nn)) && near(Sum(a), su, mag(a) * n), "norm or sum");
  const double s = num();
  const V r1 = Abs(a), r2 = Multiply(a, s), r3 = Add(a, s), r4 = Sub(a, s), m1 = Multiply(a, b), m2 = Add(a, b), m3 = Sub(a, b);
  for (size_t i = 0; i < a.size(); i++) {
    VH_CHECK(r1[i] == std::abs(a[i]) && r2[i] == a[i] * s && r3[i] == a[i] + s && r4[i] == a[i] - s, "scalar operation at " << i);
    if (n == m) VH_CHECK(m1[i] == a[i] * b[i] && m2[i] == a[i] + b[i] && m3[i] == a[i] - b[i], "operation at " << i);
    if (s != 0) VH_CHECK(near(Divide(a, s)[i], LD(a[i]) / s, std::fabs(LD(a[i]) / s)), "division by a number");
    if (n == m && b[i] != 0) VH_CHECK(Divide(a, b)[i] == a[i] / b[i], "division");
  }
  if (n != m) VH_CHECK(m1.empty() && m2.empty() && m3.empty() && Divide(a, b).empty(), "operation on different sizes");
  if (n >= 2) {
    const std::pair<double, double> p(a[0], a[1]), o(a[1], a[0]);
    VH_CHECK(Add(p, o).first == a[0] + a[1] && Sub(p, o).second == a[1] - a[0] && Multiply(p, o).first == a[0] * a[1] && Multiply(p, s).second == a[1] * s && Abs(p).first == std::abs(a[0]), "pairs");
    if (a[0] != 0 && a[1] != 0 && s != 0) VH_CHECK(Divide(p, o).first == a[0] / a[1] && Divide(p, o).second == a[1] / a[0] && Divide(p, s).second == a[1] / s, "pair division");
    const double th = num();
    VH_CHECK(CloseEnough(a[0], a[1], th) == (std::abs(a[1] - a[0]) <= std::abs(th)) && Sign(a[0]) == (a[0] > 0) - (a[0] < 0), "comparison");
    bool all = n == m;
    for (size_t i = 0; all && i < a.size(); i++) all = std::abs(b[i] - a[i]) <= std::abs(th);
    VH_CHECK(CloseEnough(a, b, th) == all, "comparison of vectors");
  }
}
static void average() {
  const int n = vh::R().coin(1, 30) ? vh::R().in(100, 400) : vh::R().in(1, 7);
  const V v = vec(n);
  V w;
  if (vh::R().coin(2, 3)) { w = vec(n); for (auto& x : w) { if (vh::R().coin(1, 3)) x = 0; if (std::abs(x) > 1e3) x = 1e3; } w[vh::R().in(0, n - 1)] = vh::R().in(1, 9) * (vh::R().coin() ? 0.5 : -0.5); }
  std::ostringstream d;
  d << "average of";
  for (double x : v) d << " " << x;
  d << " weights";
  for (double x : w) d << " " << x;
  vh::begin_case(d.str(), n > 1);
  LD sw = 0, sv = 0, lo = 1e300, hi = -1e300, m = 0;
  std::vector<Eigen::Vector3d, Eigen::aligned_allocator<Eigen::Vector3d>> pts;
  for (int i = 0; i < n; i++) {
    const LD x = w.empty() ? 1 : std::abs(w[i]);
    sw += x, sv += x * v[i];
    if (x > 0) lo = std::min<LD>(lo, v[i]), hi = std::max<LD>(hi, v[i]);
    m = std::max<LD>(m, std::abs(v[i]));
    pts.push_back(Eigen::Vector3d(v[i], 2 * v[i], -v[n - 1 - i]));
  }
  const double a = AverageStdVectorDouble(v, w);
  VH_CHECK(near(a, sv / sw, m * n), "average " << a << ", expected " << double(sv / sw));
  VH_CHECK(a >= lo - 1e-9L * (m + 1) && a <= hi + 1e-9L * (m + 1), "average " << a << " outside " << double(lo) << " to " << double(hi));
  VH_CHECK(AverageContinuousRevolute(v, w) == a, "revolute average");
  const Eigen::Vector3d p = AverageEigenVector3d(pts, w);
  LD s3 = 0;
  for (int i = 0; i < n; i++) s3 += (w.empty() ? 1.0L : std::abs(w[i])) * -v[n - 1 - i];
  VH_CHECK(near(p[0], sv / sw, m * n) && near(p[1], 2 * sv / sw, 2 * m * n) && near(p[2], s3 / sw, m * n), "average point " << p.transpose());
  std::vector<Eigen::VectorXd> xs(pts.begin(), pts.end());
  VH_CHECK((AverageEigenVectorXd(xs, w) - p).norm() <= 1e-9 * (1 + p.norm()), "average of dynamic vectors");
  LD ss = 0, mean = 0;
  for (double x : v) mean += x;
  mean /= n;
  for (double x : v) ss += (x - mean) * (x - mean);
  const LD dev = n == 1 ? 0 : std::sqrt(ss / (n - 1));
  VH_CHECK(near(ComputeStdDevStdVectorDouble(v), dev, m * n) && near(ComputeStdDevStdVectorDouble(v, double(mean)), dev, m * n), "deviation " << ComputeStdDevStdVectorDouble(v) << ", expected " << double(dev));
  LD len = 0;
  const auto ind = CalculateIndividualDistances(pts), cum = CalculateCumulativeDistances(pts);
  VH_CHECK(ind.size() == size_t(n) && cum.size() == size_t(n), "sizes of the distances");
  for (int i = 0; i < n; i++) {
    const LD e = i ? (pts[i] - pts[i - 1]).norm() : 0;
    len += e;
    VH_CHECK(near(ind[i], e, e) && near(cum[i], len, len), "distance " << i << ": " << ind[i] << ", " << cum[i]);
  }
  VH_CHECK(near(CalculateTotalDistance(pts), len, len), "total distance of points");
  int calls = 0;
  const double td = CalculateTotalDistance(v, [&](const double& x, const double& y) { calls++; return std::abs(x - y) + 2 * (y > x); });
  LD t2 = 0;
  for (int i = 1; i < n; i++) t2 += std::abs(v[i - 1] - v[i]) + 2 * (v[i] > v[i - 1]);
  VH_CHECK(near(td, t2, t2) && calls == n - 1, "total distance " << td << ", expected " << double(t2));
}
int main() {
  vh::init();
  std::cerr.setstate(std::ios::failbit);   // the clamped ratios are announced
  vh::begin_section();
  while (vh::more()) { if (vh::R().coin()) interp(); else average(); }
  std::cerr.clear();
  return vh::done();
}

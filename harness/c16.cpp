// Truncated normal sampling (bounds, distribution), Gaussian integrals, random rotations.
#include <arc_utilities/arc_helpers.hpp>
#include "vh.hpp"
using namespace arc_helpers;
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static double tail(double a, double b) {  // P(a < Z < b), accurate in both tails
  if (a > 0) return 0.5 * (std::erfc(a / std::sqrt(2.0)) - std::erfc(b / std::sqrt(2.0)));
  return Phi(b) - Phi(a);
}
static void trunc(double mean, double sd, double lo, double hi, int n) {
  std::ostringstream o;
  o << "truncated normal mean " << mean << " stddev " << sd << " bounds [" << lo << ", " << hi << "] samples " << n;
  const uint64_t seed = vh::R().u64();
  vh::begin_case(o.str() + " seed " + std::to_string(seed));
  TruncatedNormalDistribution d(mean, sd, lo, hi);
  std::mt19937_64 g(seed);
  std::vector<double> v;
  const double tol = 1e-9 * (1 + std::fabs(mean) + 10 * sd);
  for (int i = 0; i < n; i++) {
    const double x = d(g);
    VH_CHECK(std::isfinite(x) && x >= lo - tol && x <= hi + tol, "sample " << vh::num(x) << " is outside the bounds");
    v.push_back(x);
  }
  std::sort(v.begin(), v.end());
  const double a = (lo - mean) / sd, b = (hi - mean) / sd, mass = tail(a, b);
  if (n < 1000 || mass < 1e-250) return;
  double D = 0;
  for (int i = 0; i < n; i++) {
    const double F = tail(a, (v[i] - mean) / sd) / mass;
    D = std::max(D, std::max(F - i / (double)n, (i + 1) / (double)n - F));
  }
  // Kolmogorov-Smirnov: P(D > 3.6/sqrt(n)) < 1e-11
  VH_CHECK(D < 3.6 / std::sqrt((double)n), "the samples do not follow the truncated normal law: KS distance " << D << " for " << n << " samples");
}
static void integrals() {
  const double mean = vh::R().real(-3, 3), sd = vh::R().real(0.2, 3), lo = mean + sd * vh::R().real(-3, 1), hi = lo + sd * vh::R().real(0.3, 4);
  const double x = vh::R().real(lo - 1, hi + 1), y = x + vh::R().real(0, 2);
  std::ostringstream o;
  o.precision(17);
  o << "gaussian mean " << mean << " stddev " << sd << " bounds " << lo << " " << hi << " at " << x << " " << y;
  vh::begin_case(o.str());
  auto close = [](double p, double q) { return std::fabs(p - q) < 1e-9; };
  VH_CHECK(close(EvaluateGaussianCDF(mean, sd, x), Phi((x - mean) / sd)), "EvaluateGaussianCDF");
  VH_CHECK(close(EvaluateGaussianPDF(mean, sd, x), std::exp(-0.5 * (x - mean) * (x - mean) / sd / sd) / (sd * std::sqrt(2 * M_PI))), "EvaluateGaussianPDF");
  VH_CHECK(close(IntegrateGaussian(mean, sd, x, y), Phi((y - mean) / sd) - Phi((x - mean) / sd)), "IntegrateGaussian");
  const double m = Phi((hi - mean) / sd) - Phi((lo - mean) / sd);
  auto F = [&](double t) { return t <= lo ? 0.0 : t >= hi ? 1.0 : (Phi((t - mean) / sd) - Phi((lo - mean) / sd)) / m; };
  VH_CHECK(close(EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, x), F(x)), "EvaluateTruncatedGaussianCDF");
  VH_CHECK(EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, lo) == 0 && EvaluateTruncatedGaussianCDF(mean, lo, hi, sd, hi) == 1, "truncated CDF at its bounds");
  VH_CHECK(close(IntegrateTruncatedGaussian(mean, lo, hi, sd, x, y), F(y) - F(x)), "IntegrateTruncatedGaussian");
  const double p = x <= lo || x >= hi ? 0 : std::exp(-0.5 * (x - mean) * (x - mean) / sd / sd) / (sd * std::sqrt(2 * M_PI)) / m;
  VH_CHECK(std::fabs(EvaluateTruncatedGaussianPDF(mean, lo, hi, sd, x) - p) < 1e-7 * (1 + p), "EvaluateTruncatedGaussianPDF");
}
static void rotations() {
  const uint64_t seed = vh::R().u64();
  vh::begin_case("random rotations seed " + std::to_string(seed));
  std::mt19937_64 g(seed);
  RandomRotationGenerator r;
  const int n = 4000;
  double m[4] = {0}, s[4] = {0};
  for (int i = 0; i < n; i++) {
    const auto q = r.GetQuaternion(g);
    VH_CHECK(std::fabs(q.norm() - 1) < 1e-9, "quaternion of norm " << q.norm());
    const double c[4] = {q.w(), q.x(), q.y(), q.z()};
    for (int k = 0; k < 4; k++) { m[k] += c[k] / n; s[k] += c[k] * c[k] / n; }
    const auto e = r.GetEulerAngles(g);
    VH_CHECK(std::fabs(e.x()) <= M_PI + 1e-9 && std::fabs(e.z()) <= M_PI + 1e-9 && e.y() >= -1e-9 && e.y() <= 2 * M_PI + 1e-9, "Euler angles out of range");
  }
  // uniform rotations: every component has mean 0 (stddev 0.5) and second moment 1/4 (stddev 0.25)
  for (int k = 0; k < 4; k++) {
    VH_CHECK(std::fabs(m[k]) < 7 * 0.5 / std::sqrt((double)n), "component " << k << " has mean " << m[k]);
    VH_CHECK(std::fabs(s[k] - 0.25) < 7 * 0.25 / std::sqrt((double)n), "component " << k << " has second moment " << s[k]);
  }
  std::vector<double> raw;
  std::mt19937_64 a(seed), b(seed);
  raw = r.GetRawQuaternion(a);
  const auto q = r.GetQuaternion(b);
  VH_CHECK(raw.size() == 4 && raw[0] == q.x() && raw[1] == q.y() && raw[2] == q.z() && raw[3] == q.w(), "GetRawQuaternion is not x, y, z, w");
}
static void mvn() {
  const uint64_t seed = vh::R().u64();
  std::mt19937_64 g(seed);
  const int k = vh::R().in(1, 3);
  Eigen::VectorXd mean(k);
  Eigen::MatrixXd A(k, k);
  for (int i = 0; i < k; i++) { mean(i) = vh::R().real(-3, 3); for (int j = 0; j < k; j++) A(i, j) = vh::R().real(-1, 1); }
  const bool singular = vh::R().coin(1, 3);
  if (singular) A.col(0).setZero();
  const Eigen::MatrixXd cov = A * A.transpose();
  std::ostringstream o;
  o << "multivariate normal mean " << mean.transpose() << " covariance " << cov << " seed " << seed;
  vh::begin_case(o.str());
  MultivariteGaussianDistribution d(mean, cov);
  const int n = 6000;
  Eigen::VectorXd m = Eigen::VectorXd::Zero(k);
  Eigen::MatrixXd c = Eigen::MatrixXd::Zero(k, k);
  for (int i = 0; i < n; i++) { const Eigen::VectorXd x = d(g); m += x / n; c += (x - mean) * (x - mean).transpose() / n; }
  for (int i = 0; i < k; i++) {
    VH_CHECK(std::fabs(m(i) - mean(i)) < 8 * std::sqrt(cov(i, i) / n) + 1e-6, "sample mean " << m(i) << " of component " << i);
    for (int j = 0; j < k; j++) VH_CHECK(std::fabs(c(i, j) - cov(i, j)) < 8 * std::sqrt(2 * cov(i, i) * cov(j, j) / n) + 1e-6, "sample covariance " << c(i, j) << " at " << i << "," << j);
  }
}
int main() {
  vh::init(2);
  const double inf = std::numeric_limits<double>::infinity();
  vh::begin_section();
  trunc(5, 1, -inf, 3, 6000);
  trunc(5, 1, 7, inf, 6000);
  trunc(5, 2, 6, 8, 6000);
  trunc(5, 2, 1, 3, 6000);
  trunc(5, 2, 4, 8, 6000);
  trunc(-1, 0.5, 3, 3.1, 6000);
  trunc(0, 1, 2, 12, 6000);
  trunc(3, 2, -inf, inf, 6000);
  while (vh::more()) {
    const double mean = vh::R().real(-10, 10), sd = vh::R().coin() ? vh::R().real(0.01, 1) : vh::R().real(1, 20);
    double lo = mean + sd * vh::R().real(-4, 5), hi = lo + sd * (vh::R().coin() ? vh::R().real(0.02, 1) : vh::R().real(0.5, 5));
    if (vh::R().coin(1, 6)) lo = -inf;
    else if (vh::R().coin(1, 6)) hi = inf;
    if (hi < mean + 1e9 && tail((lo - mean) / sd, (hi - mean) / sd) < 1e-30) continue;
    // the naive sampler is slow when little mass is enclosed around the mean
    const double a = (lo - mean) / sd, b = (hi - mean) / sd;
    if (a <= 0 && b >= 0 && tail(a, b) < 0.01) continue;
    trunc(mean, sd, lo, hi, vh::R().coin(1, 4) ? 6000 : 200);
  }
  vh::begin_section();
  while (vh::more()) {
    for (int i = 0; i < 50; i++) integrals();
    rotations();
    mvn();
  }
  return vh::done();
}

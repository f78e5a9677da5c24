// Angles on the circle: every function against the representative in (-pi, pi] computed in long double.
#include <arc_utilities/math_helpers.hpp>
#include "vh.hpp"
using namespace EigenHelpers;
typedef long double LD;
static const LD TWO = 2.0L * static_cast<LD>(M_PI);
static const double EPS = 1e-9;
static LD wrapl_(LD v) {
  LD r = fmodl(v, TWO);
  if (r <= -(LD)M_PI) r += TWO;
  if (r > (LD)M_PI) r -= TWO;
  return r;
}
static bool same_angle(LD a, LD b) { return std::abs((double)wrapl_(a - b)) <= EPS; }
static LD turn(LD v) {
  LD r = fmodl(v, TWO);
  return r < 0 ? r + TWO : r;
}
static bool near_wrap(LD v) {
  LD t = turn(v);
  return t < EPS || TWO - t < EPS;
}
static void one(double a, double b, double t, double range) {
  std::ostringstream o;
  o.precision(17);
  o << "angles " << a << " and " << b << " ratio " << t << " range " << range;
  vh::begin_case(o.str());
  const double ea = EnforceContinuousRevoluteBounds(a), eb = EnforceContinuousRevoluteBounds(b);
  VH_CHECK(ea > -M_PI && ea <= M_PI, "EnforceContinuousRevoluteBounds gives " << ea << ", outside (-pi, pi]");
  VH_CHECK(same_angle(ea, a), "EnforceContinuousRevoluteBounds gives " << ea << ", another angle");
  if (a > -M_PI && a <= M_PI) VH_CHECK(ea == a, "EnforceContinuousRevoluteBounds changes an angle already in range to " << ea);
  const LD d = wrapl_((LD)b - (LD)a);
  const bool tie = std::abs((double)(std::abs((double)d) - M_PI)) < EPS;
  const double sd = ContinuousRevoluteSignedDistance(a, b);
  VH_CHECK(sd > -M_PI - EPS && sd <= M_PI + EPS, "signed distance " << sd << " is longer than half a turn");
  VH_CHECK(same_angle(sd, d), "signed distance " << sd << " does not lead from the first angle to the second (expected " << (double)d << ")");
  VH_CHECK(std::abs(ContinuousRevoluteDistance(a, b) - std::abs((double)d)) <= EPS, "distance is " << ContinuousRevoluteDistance(a, b) << " instead of " << std::abs((double)d));
  VH_CHECK(std::abs(ContinuousRevoluteDistance(a, b) - ContinuousRevoluteDistance(b, a)) <= EPS, "the distance is not symmetric");
  const double sum = AddContinuousRevoluteValues(a, b);
  VH_CHECK(sum > -M_PI && sum <= M_PI && same_angle(sum, (LD)a + (LD)b), "AddContinuousRevoluteValues gives " << sum);
  VH_CHECK(same_angle(AddContinuousRevoluteValues(a, sd), b), "adding the signed distance does not reach the second angle");
  const double rg = GetContinuousRevoluteRange(a, b);
  VH_CHECK(rg >= 0 && rg < (double)TWO + EPS && same_angle(rg, (LD)b - (LD)a), "GetContinuousRevoluteRange gives " << rg);
  const LD off = turn((LD)b - (LD)a);
  if (std::abs((double)(off - range)) > EPS && !near_wrap(off))
    VH_CHECK(CheckInContinuousRevoluteRange(a, range, b) == (off < (LD)range), "CheckInContinuousRevoluteRange is " << CheckInContinuousRevoluteRange(a, range, b) << " at offset " << (double)off);
  const LD offe = turn((LD)range - (LD)a);
  if (std::abs((double)(off - offe)) > EPS && !near_wrap(off) && !near_wrap(offe))
    VH_CHECK(CheckInContinuousRevoluteBounds(a, range, b) == (off < offe), "CheckInContinuousRevoluteBounds(end " << range << ") is " << CheckInContinuousRevoluteBounds(a, range, b));
  const double ip = InterpolateContinuousRevolute(a, b, t), ct = t < 0 ? 0 : t > 1 ? 1 : t;
  VH_CHECK(ip >= -M_PI - EPS && ip <= M_PI + EPS, "InterpolateContinuousRevolute gives " << ip << ", outside [-pi, pi]");
  VH_CHECK(same_angle(ip, (LD)a + d * ct) || (tie && same_angle(ip, (LD)a - d * ct)), "InterpolateContinuousRevolute gives " << ip << ", not the given fraction of the shortest arc");
}
int main() {
  vh::init();
  std::vector<double> sp = {0.0, 0.5, -0.5, 1.5, -1.5, 3.0, -3.0, 3.1, -3.1, M_PI, -M_PI, std::nextafter(M_PI, 4), std::nextafter(M_PI, 3), std::nextafter(-M_PI, -4),
                            std::nextafter(-M_PI, 0), M_PI / 2, -M_PI / 2, 2 * M_PI, -2 * M_PI, 3 * M_PI, -3 * M_PI, 4.0, -4.0, 6.0, -6.0, 7.0, -7.0, 9.0, -9.0, 20.0, -20.0, 100.25, -100.25};
  const double ts[] = {0, 1, 0.25, 0.5, 0.9, -0.3, 1.7};
  unsigned k = 0;
  for (double a : sp)
    for (double b : sp)
      for (double t : ts) one(a, b, t, sp[(k++ * 7) % sp.size()]);
  vh::begin_section();
  while (vh::more()) {
    const double s = vh::R().coin() ? 4 : vh::R().coin() ? 30 : 2000;
    one(vh::R().unit() * 2 * s - s, vh::R().unit() * 2 * s - s, vh::R().unit() * 1.4 - 0.2, vh::R().unit() * 14 - 7);
  }
  return vh::done();
}

// Dynamic time warping (evaluators reused over many pairs) and Hausdorff distance, against their definitions.
#include <arc_utilities/simple_dtw.hpp>
#include <arc_utilities/simple_hausdorff_distance.hpp>
#include "vh.hpp"
struct P { int v; };
struct Q { int v; };
typedef std::function<double(const P&, const Q&)> Fn;
static const double INF = std::numeric_limits<double>::infinity();
// every warping path, by enumeration
static double best(const std::vector<P>& a, const std::vector<Q>& b, const Fn& f, size_t i, size_t j) {
  const double here = f(a[i], b[j]);
  if (i + 1 == a.size() && j + 1 == b.size()) return here;
  double r = INF;
  if (i + 1 < a.size()) r = std::min(r, best(a, b, f, i + 1, j));
  if (j + 1 < b.size()) r = std::min(r, best(a, b, f, i, j + 1));
  if (i + 1 < a.size() && j + 1 < b.size()) r = std::min(r, best(a, b, f, i + 1, j + 1));
  return here + r;
}
static double table(const std::vector<P>& a, const std::vector<Q>& b, const Fn& f) {
  std::vector<std::vector<double>> d(a.size() + 1, std::vector<double>(b.size() + 1, INF));
  d[0][0] = 0;
  for (size_t i = 1; i <= a.size(); i++)
    for (size_t j = 1; j <= b.size(); j++) d[i][j] = f(a[i - 1], b[j - 1]) + std::min(std::min(d[i - 1][j], d[i][j - 1]), d[i - 1][j - 1]);
  return d[a.size()][b.size()];
}
int main() {
  vh::init(1);
  vh::begin_section();
  typedef simple_dtw::SimpleDTW<P, Q, Fn> DTW;
  long round = 0;
  while (vh::more()) {
    const int n0 = vh::R().in(0, 6), m0 = vh::R().in(0, 6);
    DTW shared = vh::R().coin() ? DTW() : DTW(n0, m0);
    const int steps = vh::R().in(1, 6);
    std::string hist;
    for (int s = 0; s < steps; s++) {
      const bool big = vh::R().coin(1, 10);
      const int n = vh::R().in(0, big ? 40 : 6), m = vh::R().in(0, big ? 40 : 6), hi = vh::R().coin() ? 3 : 50;
      std::vector<P> a;
      std::vector<Q> b;
      std::ostringstream o;
      for (int i = 0; i < n; i++) a.push_back({(int)vh::R().in(0, hi)}), o << " " << a.back().v;
      o << " |";
      for (int i = 0; i < m; i++) b.push_back({(int)vh::R().in(0, hi)}), o << " " << b.back().v;
      const int kind = vh::R().in(0, 2);
      const Fn f = [kind](const P& p, const Q& q) { return kind == 0 ? std::abs(p.v - q.v) : kind == 1 ? (double)((p.v * 7 + q.v * 13) % 11) : (p.v == q.v ? 0.0 : 0.5 * p.v + 1.25); };
      vh::begin_case("evaluations" + hist + " then distance kind " + std::to_string(kind) + ":" + o.str(), n + m > 0);
      const double want = table(a, b, f);
      if (n && m && n <= 5 && m <= 5) VH_CHECK(best(a, b, f, 0, 0) == want, "harness: the two definitions differ");
      const double got = shared.EvaluateWarpingCost(a, b, f);
      VH_CHECK(got == want, "warping cost is " << got << ", the cheapest warping path costs " << want);
      const double one = simple_dtw::ComputeDTWDistance<P, Q, Fn>(a, b, f);
      VH_CHECK(one == want, "ComputeDTWDistance is " << one << ", the cheapest warping path costs " << want);
      double h = 0;
      for (auto& p : a) {
        double r = INF;
        for (auto& q : b) r = std::min(r, f(p, q));
        h = std::max(h, r);
      }
      const double hd = simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance<P, Q>(a, b, f);
      VH_CHECK(hd == h, "Hausdorff distance is " << hd << " instead of " << h);
      hist += " (" + std::to_string(n) + "x" + std::to_string(m) + ")";
    }
    round++;
  }
  return vh::done();
}

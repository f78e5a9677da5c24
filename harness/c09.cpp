// K nearest neighbours: serial and parallel (real OpenMP threads when built with -fopenmp) against sorting all distances.
#include <arc_utilities/arc_helpers.hpp>
#include "vh.hpp"
struct P { double d; };
struct Q { double o; };
static void verify(const std::vector<std::pair<int64_t, double>>& r, const std::vector<double>& d, size_t K, const char* who) {
  const size_t n = d.size(), m = std::min(n, K);
  VH_CHECK(r.size() == m, who << ": " << r.size() << " results instead of " << m);
  std::vector<double> s(d), got;
  std::sort(s.begin(), s.end());
  std::set<int64_t> seen;
  for (auto& p : r) {
    VH_CHECK(p.first >= 0 && p.first < (int64_t)n, who << ": index " << p.first);
    VH_CHECK(seen.insert(p.first).second, who << ": index " << p.first << " twice");
    VH_CHECK(p.second == d[p.first], who << ": item " << p.first << " reported at " << p.second << ", is at " << d[p.first]);
    got.push_back(p.second);
  }
  std::sort(got.begin(), got.end());
  for (size_t i = 0; i < m; i++) VH_CHECK(got[i] == s[i], who << ": an item at distance " << s[i] << " was left out, " << got[i] << " was taken");
}
int main() {
  vh::init();
  vh::begin_section();
#ifdef _OPENMP
  omp_set_num_threads(5);
#endif
  while (vh::more()) {
    const int n = vh::R().coin(1, 20) ? vh::R().in(20, 200) : vh::R().in(0, 12);
    const size_t K = vh::R().coin(1, 10) ? vh::R().in(0, 40) : vh::R().in(0, n + 1);
    std::vector<P> items;
    std::vector<double> d;
    const int mode = vh::R().in(0, 4);
    const Q cur{vh::R().coin() ? 0.0 : vh::R().real(-1, 1)};
    std::function<double(const P&, const Q&)> fn = [](const P& p, const Q& q) { return p.d + q.o; };
    for (int i = 0; i < n; i++) {
      items.push_back({mode == 0 ? (double)vh::R().in(0, 3) : mode == 1 ? vh::R().real(-5, 5) : mode == 2 ? n - i : mode == 3 ? i : vh::R().real(0, 1e300)});
      d.push_back(fn(items.back(), cur));
    }
    vh::begin_case("K=" + std::to_string(K) + " distances " + vh::str(d), n > 0 && K > 0);
    verify(arc_helpers::GetKNearestNeighborsSerial(items, cur, fn, K), d, K, "serial");
    verify(arc_helpers::GetKNearestNeighborsParallel(items, cur, fn, K), d, K, "parallel");
  }
  return vh::done();
}

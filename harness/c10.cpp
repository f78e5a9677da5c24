// Distance matrices: one and two element sets, serial and with real OpenMP threads.
#include <arc_utilities/arc_helpers.hpp>
#include "vh.hpp"
// items compare equal on a key that says nothing about their distance
struct P { int id; bool operator==(const P& o) const { return id % 3 == o.id % 3; } bool operator!=(const P& o) const { return !(*this == o); }
  bool operator<(const P& o) const { return id % 3 < o.id % 3; } };
struct Q { long id; };
int main() {
  vh::init();
  vh::begin_section();
  omp_set_num_threads(4);
  long k = 0;
  while (vh::more()) {
    const int big = k >= 64 && vh::R().coin(1, 40) ? 150 : 14;
    const int n = k < 64 ? k / 8 : vh::R().in(0, big), m = k < 64 ? k % 8 : vh::R().in(0, big);
    k++;
    const uint64_t salt = vh::R().u64() % 1000;
    std::vector<P> a;
    std::vector<Q> b;
    for (int i = 0; i < n; i++) a.push_back({i + 1});
    for (int i = 0; i < m; i++) b.push_back({-i - 1});
    vh::begin_case("sets of " + std::to_string(n) + " and " + std::to_string(m) + " salt " + std::to_string(salt), n + m > 0);
    auto h = [salt](long x, long y) { return static_cast<double>((x * 7919 + y * 104729 + static_cast<long>(salt) * 31) % 10007); };
    // not symmetric on purpose: each unordered pair must be evaluated once, in order
    std::function<double(const P&, const P&)> f = [&](const P& x, const P& y) { return h(x.id, y.id); };
    std::function<double(const P&, const Q&)> g = [&](const P& x, const Q& y) { return h(x.id, y.id); };
    std::function<double(const P&, const P&)> fs = [&](const P& x, const P& y) { return h(std::min(x.id, y.id), std::max(x.id, y.id)); };
    for (int par = 0; par < 2; par++) {
      const Eigen::MatrixXd d = par ? arc_helpers::BuildDistanceMatrixParallel(a, fs) : arc_helpers::BuildDistanceMatrixSerial(a, fs);
      VH_CHECK(d.rows() == n && d.cols() == n, "one set: size " << d.rows() << "x" << d.cols() << (par ? " (parallel)" : " (serial)"));
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          VH_CHECK(d(i, j) == (i == j ? 0.0 : fs(a[i], a[j])), "one set: cell " << i << "," << j << " is " << d(i, j) << (par ? " (parallel)" : " (serial)"));
      const Eigen::MatrixXd e = par ? arc_helpers::BuildDistanceMatrixParallel(a, b, g) : arc_helpers::BuildDistanceMatrixSerial(a, b, g);
      VH_CHECK(e.rows() == n && e.cols() == m, "two sets: size " << e.rows() << "x" << e.cols() << (par ? " (parallel)" : " (serial)"));
      for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++)
          VH_CHECK(e(i, j) == g(a[i], b[j]), "two sets: cell " << i << "," << j << " is " << e(i, j) << (par ? " (parallel)" : " (serial)"));
    }
  }
  return vh::done();
}

// K-means: labels are nearest centers, centers are averages of their items (with their weights), labels in range.
#include <arc_utilities/simple_kmeans_clustering.hpp>
#include "vh.hpp"
using simple_kmeans_clustering::SimpleKMeansClustering;
struct P { int id; double x; };
typedef std::vector<P> V;
typedef std::vector<double> W;
static W weight_of;
static P mean(const V& v) {
  double s = 0;
  for (auto& p : v) s += p.x;
  return v.empty() ? P{-1, 1e6} : P{-1, s / v.size()};
}
static P wmean(const V& v, const W& w) {
  VH_CHECK(v.size() == w.size(), "the average function gets " << v.size() << " items and " << w.size() << " weights");
  double s = 0, t = 0;
  for (size_t i = 0; i < v.size(); i++) {
    VH_CHECK(v[i].id >= 0 && w[i] == weight_of[v[i].id], "item " << v[i].id << " is averaged with weight " << w[i] << " instead of " << weight_of[v[i].id]);
    s += v[i].x * w[i], t += w[i];
  }
  return v.empty() ? P{-1, 1e6} : P{-1, s / t};
}
static double dist(const P& a, const P& b) { return std::abs(a.x - b.x); }
static void verify(const V& data, const std::vector<uint32_t>& lab, size_t k, bool weighted, const V* centers, const char* which, bool fixed = true) {
  VH_CHECK(lab.size() == data.size(), which << ": " << lab.size() << " labels for " << data.size() << " items");
  for (auto l : lab) VH_CHECK(l < k, which << ": label " << l << " of " << k << " clusters");
  if (!fixed) return;
  V want;
  for (size_t c = 0; c < k; c++) {
    V g;
    W w;
    for (size_t i = 0; i < data.size(); i++) if (lab[i] == c) g.push_back(data[i]), w.push_back(weight_of[data[i].id]);
    want.push_back(weighted ? wmean(g, w) : mean(g));
    if (centers) VH_CHECK((*centers)[c].x == want[c].x, which << ": center " << c << " is " << (*centers)[c].x << ", the average of its items is " << want[c].x);
  }
  for (size_t i = 0; i < data.size(); i++)
    for (size_t c = 0; c < k; c++) {
      const double d = dist(want[c], data[i]), b = dist(want[lab[i]], data[i]);
      VH_CHECK(b <= d, which << ": item " << i << " has label " << lab[i] << " but center " << c << " is nearer");
      VH_CHECK(b < d || c >= lab[i], which << ": item " << i << " has label " << lab[i] << " although center " << c << " comes first and is as near");
    }
}
int main() {
  vh::init(1);
  vh::begin_section();
  const std::function<double(const P&, const P&)> df = dist;
  const std::function<P(const V&)> af = mean;
  const std::function<P(const V&, const W&)> wf = wmean;
  while (vh::more()) {
    const bool big = vh::R().coin(1, 6);
    const int n = big ? vh::R().in(100, 180) : vh::R().in(1, 14), k = vh::R().in(1, big ? 3 : std::min(n, 5)), hi = vh::R().coin() ? 5 : 60;
    V data, centers;
    weight_of.clear();
    std::ostringstream o;
    o << n << " items, " << k << " clusters:";
    for (int i = 0; i < n; i++) {
      data.push_back({i, (double)vh::R().in(0, hi)});
      weight_of.push_back(vh::R().in(1, 9) * 0.5);
      o << " " << data.back().x << "*" << weight_of.back();
    }
    o << " centers";
    for (int i = 0; i < k; i++) centers.push_back({-1, (double)vh::R().in(-3, hi + 3)}), o << " " << centers.back().x;
    vh::begin_case(o.str(), n > 1);
    const auto a = SimpleKMeansClustering::Cluster(data, df, af, centers);
    VH_CHECK((int)a.second.size() == k, a.second.size() << " centers instead of " << k);
    verify(data, a.first, k, false, &a.second, "from centers");
    const auto b = SimpleKMeansClustering::ClusterWeighted(data, weight_of, df, wf, centers);
    VH_CHECK((int)b.second.size() == k, b.second.size() << " centers instead of " << k << " (weighted)");
    verify(data, b.first, k, true, &b.second, "from centers, weighted");
    for (int pre = 0; pre < 2; pre++) {
      verify(data, SimpleKMeansClustering::Cluster(data, df, af, (uint32_t)k, pre != 0), k, false, nullptr, "from random centers");
      verify(data, SimpleKMeansClustering::ClusterWeighted(data, weight_of, df, wf, (uint32_t)k, pre != 0), k, true, nullptr, "from random centers, weighted");
    }
  }
  return vh::done();
}

// Hierarchical clustering: partition of the data, complete and single linkage, returned distance.
#include <arc_utilities/simple_hierarchical_clustering.hpp>
#include "vh.hpp"
using simple_hierarchical_clustering::SimpleHierarchicalClustering;
using namespace simple_hierarchical_clustering;
struct P { int id; };
static const double INF = std::numeric_limits<double>::infinity();
typedef std::vector<std::vector<P>> CL;
static void verify(const Eigen::MatrixXd& d, int n, double maxd, bool complete, const std::pair<CL, double>& r, const char* which) {
  const CL& cl = r.first;
  std::vector<int> in(n, -1);
  for (size_t c = 0; c < cl.size(); c++) {
    VH_CHECK(!cl[c].empty(), which << ": cluster " << c << " is empty");
    for (auto& p : cl[c]) {
      VH_CHECK(p.id >= 0 && p.id < n, which << ": an item that was not given");
      VH_CHECK(in[p.id] < 0, which << ": item " << p.id << " appears twice");
      in[p.id] = (int)c;
    }
  }
  for (int i = 0; i < n; i++) VH_CHECK(in[i] >= 0, which << ": item " << i << " is in no cluster");
  double least = INF;
  for (size_t a = 0; a < cl.size(); a++)
    for (size_t b = a + 1; b < cl.size(); b++) {
      double far = 0, near = INF;
      for (auto& p : cl[a]) for (auto& q : cl[b]) far = std::max(far, d(p.id, q.id)), near = std::min(near, d(p.id, q.id));
      const double link = complete ? far : near;
      VH_CHECK(link > maxd || link == INF, which << ": clusters " << a << " and " << b << " are " << link << " apart but were not merged");
      least = std::min(least, link);
    }
  VH_CHECK(r.second == least, which << ": returned distance " << r.second << " instead of the least remaining distance " << least);
  // greedy reference on sets of items; ties in the closest pair make the result ambiguous, so it is compared only without ties
  std::vector<std::vector<int>> g;
  for (int i = 0; i < n; i++) g.push_back({i});
  bool tie = false;
  while (true) {
    double best = INF;
    size_t x = 0, y = 0;
    int cnt = 0;
    for (size_t a = 0; a < g.size(); a++)
      for (size_t b = a + 1; b < g.size(); b++) {
        double far = 0, near = INF;
        for (int p : g[a]) for (int q : g[b]) far = std::max(far, d(p, q)), near = std::min(near, d(p, q));
        const double link = complete ? far : near;
        if (link < best) best = link, x = a, y = b, cnt = 1;
        else if (link == best) cnt++;
      }
    if (!(best <= maxd) || best == INF) break;
    if (cnt > 1) tie = true;
    g[x].insert(g[x].end(), g[y].begin(), g[y].end());
    g.erase(g.begin() + y);
  }
  if (!tie || !complete) {
    for (auto& s : g)
      for (int p : s) VH_CHECK(in[p] == in[s[0]], which << ": items " << p << " and " << s[0] << " belong together");
    VH_CHECK(g.size() == cl.size(), which << ": " << cl.size() << " clusters instead of " << g.size());
  }
  if (complete)
    for (auto& c : cl)
      for (auto& p : c) for (auto& q : c) VH_CHECK(p.id == q.id || d(p.id, q.id) <= maxd, which << ": items " << p.id << " and " << q.id << " in one cluster are " << d(p.id, q.id) << " apart");
}
int main() {
  vh::init(1);
  vh::begin_section();
  long k = 0;
  while (vh::more()) {
    const int n = k < 40 ? k / 8 : vh::R().in(0, vh::R().coin(1, 12) ? 22 : 9);
    k++;
    const int kind = vh::R().in(0, 3);
    Eigen::MatrixXd d = Eigen::MatrixXd::Zero(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) d(i, j) = d(j, i) = kind == 0 ? vh::R().in(0, 4) : kind == 1 ? vh::R().in(1, 1000) : kind == 2 ? vh::R().unit() * 10 : (vh::R().coin(1, 4) ? INF : vh::R().in(1, 50));
    if (kind == 1 && vh::R().coin()) {
      std::vector<double> x(n);
      for (auto& v : x) v = vh::R().in(0, 300);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d(i, j) = std::abs(x[i] - x[j]);
    }
    const double maxd = vh::R().coin(1, 8) ? INF : kind == 0 ? vh::R().in(-1, 5) : kind == 1 ? vh::R().in(0, 1100) : kind == 2 ? vh::R().unit() * 12 : vh::R().in(0, 60);
    std::ostringstream o;
    o.precision(17);
    o << n << " items, limit " << maxd << ", distances";
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) o << " " << d(i, j);
    vh::begin_case(o.str(), n > 1);
    std::vector<P> data;
    for (int i = 0; i < n; i++) data.push_back({i});
    for (int s = 0; s < 2; s++) {
      const CLUSTER_STRATEGY st = s ? COMPLETE_LINK : SINGLE_LINK;
      verify(d, n, maxd, s, SimpleHierarchicalClustering::Cluster(data, d, maxd, st), s ? "complete link, matrix" : "single link, matrix");
      const std::function<double(const P&, const P&)> f = [&](const P& a, const P& b) { return d(a.id, b.id); };
      verify(d, n, maxd, s, SimpleHierarchicalClustering::Cluster(data, f, maxd, st), s ? "complete link, function" : "single link, function");
    }
  }
  return vh::done();
}

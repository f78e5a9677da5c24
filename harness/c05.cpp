// Dijkstra against Bellman-Ford on random linked graphs.
#include <arc_utilities/dijkstras.hpp>
#include "vh.hpp"
using namespace arc_dijkstras;
struct V { int id; };
int main() {
  vh::init();
  vh::begin_section();
  const double INF = std::numeric_limits<double>::infinity();
  while (vh::more()) {
    const int n = vh::R().coin(1, 40) ? vh::R().in(20, 80) : vh::R().in(1, 8);
    const int e = n < 2 ? 0 : vh::R().in(0, 4 * n);
    const int wmode = vh::R().in(0, 3);
    Graph<V> g;
    std::ostringstream d;
    for (int i = 0; i < n; i++) g.addNode(V{i});
    if (vh::R().coin(1, 4)) for (int i = 0; i < n; i++) g.getNode(i).setDistance(vh::R().real(-3, 3));
    const int s = vh::R().in(0, n - 1);
    d << n << " nodes, start " << s << ", edges:";
    for (int k = 0; k < e; k++) {
      int a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1);
      if (a == b) continue;
      double w = wmode == 0 ? vh::R().in(0, 4) : wmode == 1 ? vh::R().in(0, 100) * 0.25 : wmode == 2 ? vh::R().in(0, 1) : (vh::R().coin(1, 6) ? INF : vh::R().in(1, 9) * 0.5);
      g.addEdgeBetweenNodes(a, b, w);
      if (n < 30) d << " " << a << ">" << b << ":" << w;
    }
    vh::begin_case(d.str(), e > 0);
    const auto res = SimpleDijkstrasAlgorithm<V>::PerformDijkstrasAlgorithm(g, s);
    const auto& prev = res.second.first;
    const auto& dist = res.second.second;
    // distance to the start along out edges (the relaxed edges are the in edges)
    std::vector<double> bf(n, INF);
    bf[s] = 0;
    for (int it = 0; it < n; it++)
      for (int t = 0; t < n; t++)
        for (const auto& ed : g.getNode(t).getInEdges()) bf[ed.getFromIndex()] = std::min(bf[ed.getFromIndex()], bf[t] + ed.getWeight());
    VH_CHECK(static_cast<int>(prev.size()) == n && static_cast<int>(dist.size()) == n, "sizes " << prev.size() << " " << dist.size());
    VH_CHECK(static_cast<int>(res.first.getNodes().size()) == n, "graph size");
    for (int i = 0; i < n; i++) {
      VH_CHECK(dist[i] == bf[i], "distance of node " << i << " is " << dist[i] << ", shortest is " << bf[i]);
      const auto& nd = res.first.getNode(i);
      VH_CHECK(nd.getDistance() == dist[i], "returned graph has distance " << nd.getDistance() << " at node " << i << " instead of " << dist[i]);
      VH_CHECK(nd.getInEdges() == g.getNode(i).getInEdges() && nd.getOutEdges() == g.getNode(i).getOutEdges() && nd.getValue().id == i, "returned graph changed at node " << i);
      if (i == s) { VH_CHECK(prev[i] == s, "previous of the start is " << prev[i]); continue; }
      if (bf[i] == INF) { VH_CHECK(prev[i] == -1, "unreachable node " << i << " has previous " << prev[i]); continue; }
      VH_CHECK(prev[i] >= 0 && prev[i] < n, "previous of node " << i << " is " << prev[i]);
      bool ok = false;
      for (const auto& ed : g.getNode(prev[i]).getInEdges()) ok |= ed.getFromIndex() == i && dist[i] == dist[prev[i]] + ed.getWeight();
      VH_CHECK(ok, "no edge from " << i << " to its previous node " << prev[i] << " accounts for distance " << dist[i]);
      int at = i, steps = 0;
      while (at != s && steps++ <= n) at = static_cast<int>(prev[at]);
      VH_CHECK(at == s, "following previous nodes from " << i << " does not reach the start");
    }
    for (int64_t bad : {int64_t(-1), int64_t(n), int64_t(n) + 5}) {
      bool thrown = false;
      try { SimpleDijkstrasAlgorithm<V>::PerformDijkstrasAlgorithm(g, bad); } catch (const std::invalid_argument&) { thrown = true; }
      VH_CHECK(thrown, "start " << bad << " of " << n << " nodes does not throw");
    }
  }
  return vh::done();
}

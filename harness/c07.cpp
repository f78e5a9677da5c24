// Connected components against union-find.
#include <arc_utilities/graph.hpp>
#include "vh.hpp"
using namespace arc_dijkstras;
struct V { int id; };
static std::vector<int> uf;
static int root(int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; }
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().coin(1, 30) ? vh::R().in(50, 600) : vh::R().in(0, 9);
    const int e = n < 2 ? 0 : vh::R().in(0, vh::R().coin() ? n : 2 * n);
    Graph<V> g;
    uf.resize(n);
    for (int i = 0; i < n; i++) { g.addNode(V{i}); uf[i] = i; }
    std::ostringstream d;
    d << n << " nodes:";
    const int mode = vh::R().in(0, 2);
    for (int k = 0; k < e; k++) {
      int a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1);
      if (mode == 1) b = std::min<int>(n - 1, a + vh::R().in(1, 2));
      if (mode == 2) { a = vh::R().in(0, n - 1) & ~1; b = a + 1 < n ? a + 1 : a; }
      if (a == b) continue;
      if (vh::R().coin()) g.addEdgesBetweenNodes(a, b, 1.0);
      else { g.addEdgeBetweenNodes(b, a, 1.0); g.addEdgeBetweenNodes(a, b, 2.0); }
      if (n < 60) d << " " << a << "-" << b;
      uf[root(a)] = root(b);
    }
    vh::begin_case(d.str(), e > 0);
    const auto r = g.getConnectedComponentsUndirected();
    VH_CHECK(static_cast<int>(r.first.size()) == n, "size " << r.first.size());
    std::map<int, uint32_t> of;
    std::map<uint32_t, int> back;
    for (int i = 0; i < n; i++) {
      const uint32_t c = r.first[i];
      VH_CHECK(c >= 1 && c <= r.second, "node " << i << " has component " << c << " of " << r.second);
      const int t = root(i);
      if (of.count(t)) VH_CHECK(of[t] == c, "connected nodes in components " << of[t] << " and " << c << " (node " << i << ")");
      of[t] = c;
      if (back.count(c)) VH_CHECK(back[c] == t, "unconnected nodes share component " << c << " (node " << i << ")");
      back[c] = t;
    }
    VH_CHECK(of.size() == r.second, "reports " << r.second << " components instead of " << of.size());
  }
  return vh::done();
}

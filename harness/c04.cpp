// Graph construction and linkage against a plain model.
#include <arc_utilities/graph.hpp>
#include "vh.hpp"
using namespace arc_dijkstras;
struct V { int id; };
typedef Graph<V> G;
struct E { long f, t; double w; int v; };
static bool same(const GraphEdge& a, const E& e) { return a.getFromIndex() == e.f && a.getToIndex() == e.t && a.getWeight() == e.w && static_cast<int>(a.getValidity()) == e.v; }
struct M {  // model: per node value, in and out edges
  std::vector<int> id;
  std::vector<std::vector<E>> in, out;
};
static void compare(const G& g, const M& m, const char* when) {
  VH_CHECK(g.getNodes().size() == m.id.size(), when << ": " << g.getNodes().size() << " nodes instead of " << m.id.size());
  for (size_t i = 0; i < m.id.size(); i++) {
    const auto& n = g.getNode(i);
    VH_CHECK(n.getValue().id == m.id[i], when << ": value of node " << i);
    VH_CHECK(n.getInEdges().size() == m.in[i].size() && n.getOutEdges().size() == m.out[i].size(), when << ": edge count of node " << i);
    for (size_t k = 0; k < m.in[i].size(); k++) VH_CHECK(same(n.getInEdges()[k], m.in[i][k]), when << ": in edge " << k << " of node " << i);
    for (size_t k = 0; k < m.out[i].size(); k++) VH_CHECK(same(n.getOutEdges()[k], m.out[i][k]), when << ": out edge " << k << " of node " << i);
  }
}
static bool linked(const std::vector<GraphNode<V>>& ns) {
  const long n = ns.size();
  for (long i = 0; i < n; i++) {
    for (auto& e : ns[i].getInEdges()) {
      const long f = e.getFromIndex();
      if (f < 0 || f >= n || e.getToIndex() != i || f == i) return false;
      bool ok = false;
      for (auto& o : ns[f].getOutEdges()) ok |= o.getToIndex() == i;
      if (!ok) return false;
    }
    for (auto& e : ns[i].getOutEdges()) {
      const long t = e.getToIndex();
      if (t < 0 || t >= n || e.getFromIndex() != i || t == i) return false;
      bool ok = false;
      for (auto& o : ns[t].getInEdges()) ok |= o.getFromIndex() == i;
      if (!ok) return false;
    }
  }
  return true;
}
int main() {
  vh::init(2);
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().in(0, vh::R().coin(1, 10) ? 30 : 6), ops = vh::R().in(0, vh::R().coin(1, 10) ? 80 : 14);
    std::ostringstream d;
    d << n << " nodes:";
    G g;
    M m;
    for (int i = 0; i < n; i++) {
      const int id = vh::R().in(0, 9);
      long r;
      if (vh::R().coin()) r = g.addNode(V{id}); else r = g.addNode(GraphNode<V>(V{id}));
      VH_CHECK(r == i, "addNode returned " << r << " for node " << i);
      m.id.push_back(id); m.in.emplace_back(); m.out.emplace_back();
    }
    std::vector<std::string> log;
    for (int k = 0; k < ops; k++) {
      const long a = vh::R().in(-1, n), b = vh::R().in(-1, n);
      const double w = vh::R().in(0, 50) / 4.0;
      const bool two = vh::R().coin(1, 3), ok = a >= 0 && a < n && b >= 0 && b < n && a != b;
      d << (two ? " both(" : " edge(") << a << "," << b << "," << w << ")";
      vh::begin_case(d.str(), ok);
      bool thrown = false;
      try {
        if (two) {
          auto p = g.addEdgesBetweenNodes(a, b, w);
          VH_CHECK(p.first.getFromIndex() == a && p.first.getToIndex() == b && p.second.getFromIndex() == b && p.second.getToIndex() == a, "addEdgesBetweenNodes returned other edges");
        } else {
          auto& e = g.addEdgeBetweenNodes(a, b, w);
          VH_CHECK(e.getFromIndex() == a && e.getToIndex() == b, "addEdgeBetweenNodes returned another edge");
        }
      } catch (const std::exception&) { thrown = true; }
      VH_CHECK(thrown == !ok, (thrown ? "a legal edge was refused" : "an illegal edge was accepted"));
      if (ok) {
        const int un = static_cast<int>(EDGE_VALIDITY::UNKNOWN);
        m.out[a].push_back({a, b, w, un}); m.in[b].push_back({a, b, w, un});
        if (two) { m.out[b].push_back({b, a, w, un}); m.in[a].push_back({b, a, w, un}); }
      }
      if (vh::R().coin(1, 6)) compare(g, m, "after adding");
    }
    vh::begin_case(d.str(), ops > 0);
    compare(g, m, "at the end");
    VH_CHECK(g.checkGraphLinkage() && G::CheckGraphLinkage(g) && G::CheckGraphLinkage(g.getNodes()), "linkage broken by public operations");
    for (int a = -1; a <= n; a++) {
      VH_CHECK(g.indexInRange(a) == (a >= 0 && a < n), "indexInRange(" << a << ")");
      VH_CHECK(vh::throws([&] { g.getNode(a); }) == (a < 0 || a >= n), "getNode(" << a << ")");
      for (int b = -1; b <= n; b++) {
        const E* first = nullptr;
        if (a >= 0 && a < n) for (auto& e : m.out[a]) if (e.t == b && !first) first = &e;
        try {
          const auto& e = static_cast<const G&>(g).getEdge(a, b);
          VH_CHECK(first && same(e, *first), "getEdge(" << a << "," << b << ")");
          VH_CHECK(&g.getEdge(a, b) == &e, "getEdge overloads differ");
          GraphEdge r(b, a, 1.0);
          VH_CHECK(&g.getReverseEdge(r) == &e, "getReverseEdge differs from getEdge of the swapped indices");
        } catch (const std::exception&) { VH_CHECK(!first, "getEdge(" << a << "," << b << ") did not find an existing edge"); }
      }
    }
  }
  vh::begin_section();
  while (vh::more()) {  // arbitrary node lists: the check accepts exactly the linked ones
    const int n = vh::R().in(1, vh::R().coin(1, 8) ? 12 : 4);
    std::ostringstream d;
    std::vector<GraphNode<V>> ns(n);
    const int ed = vh::R().in(0, 2 * n);
    for (int k = 0; k < ed; k++) {
      long a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1);
      if (a == b && !vh::R().coin(1, 8)) continue;
      GraphEdge e(a, b, 1.0);
      ns[a].addOutEdge(e); ns[b].addInEdge(e);
      d << a << ">" << b << " ";
    }
    if (vh::R().coin(3, 4)) {  // one mutation
      const int i = vh::R().in(0, n - 1), kind = vh::R().in(0, 3);
      auto& es = vh::R().coin() ? ns[i].getInEdges() : ns[i].getOutEdges();
      d << "mutate node " << i << (&es == &ns[i].getInEdges() ? " in" : " out") << " kind " << kind;
      if (!es.empty()) {
        const int k = vh::R().in(0, es.size() - 1);
        if (kind == 0) es.erase(es.begin() + k);
        else if (kind == 1) es[k].setFromIndex(vh::R().in(-1, n));
        else if (kind == 2) es[k].setToIndex(vh::R().in(-1, n));
        else std::swap(es[k], es[0]);
      } else es.push_back(GraphEdge(vh::R().in(-1, n), vh::R().in(-1, n), 1.0));
    }
    vh::begin_case(d.str(), ed > 0);
    const bool want = linked(ns);
    VH_CHECK(G::CheckGraphLinkage(ns) == want, "CheckGraphLinkage says " << !want << " for " << d.str());
    const bool thrown = vh::throws([&] { G g(ns); });
    VH_CHECK(thrown == !want, "construction from nodes " << (thrown ? "refused linked" : "accepted unlinked") << " nodes");
    if (want) { G g(ns); VH_CHECK(g.getNodes().size() == ns.size(), "nodes lost"); for (int i = 0; i < n; i++) VH_CHECK(g.getNode(i).getInEdges() == ns[i].getInEdges() && g.getNode(i).getOutEdges() == ns[i].getOutEdges(), "edges lost"); }
  }
  return vh::done();
}

// Graph A* and generic A* against Bellman-Ford: valid path, reported cost, optimal when the heuristic never overestimates.
#include <arc_utilities/dijkstras.hpp>
#include "vh.hpp"
using namespace arc_dijkstras;
struct V { int id; };
typedef Graph<V> G;
static const double INF = std::numeric_limits<double>::infinity();
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().coin(1, 40) ? vh::R().in(15, 40) : vh::R().in(2, 8);
    const int e = vh::R().in(0, 3 * n);
    const int wmode = vh::R().in(0, 3);
    G g;
    std::ostringstream d;
    for (int i = 0; i < n; i++) g.addNode(V{i});
    const int s = vh::R().in(0, n - 1);
    int goal = vh::R().in(0, n - 1);
    const bool limit = vh::R().coin();
    const int which = vh::R().in(0, 3);   // edge functions, node functions, weights, generic
    const int hmode = vh::R().in(0, 3);   // zero, scaled true cost, random admissible (inconsistent), arbitrary
    d << n << " nodes, " << s << " to " << goal << ", limit " << limit << ", variant " << which << ", heuristic " << hmode << ", edges:";
    std::map<std::pair<int, int>, std::pair<bool, double>> nodefn;
    for (int k = 0; k < e; k++) {
      const int a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1);
      if (a == b) continue;
      const double w = wmode == 0 ? vh::R().in(0, 4) : wmode == 1 ? vh::R().in(0, 100) * 0.25 : wmode == 2 ? vh::R().in(0, 1) : (vh::R().coin(1, 6) && which == 2 ? INF : vh::R().in(1, 9) * 0.5);
      g.addEdgeBetweenNodes(a, b, w);
      auto& oe = g.getNode(a).getOutEdges().back();
      const int val = vh::R().in(0, 5);
      oe.setValidity(val == 0 ? EDGE_VALIDITY::INVALID : val == 1 ? EDGE_VALIDITY::UNKNOWN : EDGE_VALIDITY::VALID);
      nodefn[{a, b}] = {!vh::R().coin(1, 6), w};
      d << " " << a << ">" << b << ":" << w << (val == 0 ? "x" : "") << (nodefn[{a, b}].first ? "" : "n");
    }
    auto valid = [&](const GraphEdge& x) {
      if (which == 2) return x.getValidity() != EDGE_VALIDITY::INVALID && x.getWeight() < INF;
      if (which == 0) return x.getValidity() == EDGE_VALIDITY::VALID;
      return nodefn.at({int(x.getFromIndex()), int(x.getToIndex())}).first;
    };
    auto weight = [&](const GraphEdge& x) { return which == 2 ? x.getWeight() : which == 0 ? x.getWeight() * 2 : nodefn.at({int(x.getFromIndex()), int(x.getToIndex())}).second; };
    std::vector<double> togo(n, INF);
    togo[goal] = 0;
    for (int it = 0; it < n; it++)
      for (int a = 0; a < n; a++)
        for (const auto& x : g.getNode(a).getOutEdges()) if (valid(x)) togo[a] = std::min(togo[a], togo[x.getToIndex()] + weight(x));
    std::vector<double> h(n, 0);
    for (int i = 0; i < n; i++) {
      const double t = std::min(togo[i], 50.0);
      h[i] = hmode == 0 ? 0 : hmode == 1 ? t : hmode == 2 ? std::floor(4 * vh::R().real(0, t)) / 4 : vh::R().in(0, 60) * 0.25;
      if (i == goal && hmode != 3) h[i] = 0;
    }
    if (hmode != 0 && hmode != 3) { d << " h:"; for (double x : h) d << " " << x; }
    vh::begin_case(d.str(), e > 1);
    auto hf = [&](const V& a, const V& b) { if (b.id != goal) vh::fail("the heuristic is evaluated towards a node that is not the goal"); return h[a.id]; };
    arc_helpers::AstarResult r;
    auto run = [&](int64_t from, int64_t to) {
      if (which == 0)
        return SimpleGraphAstar<V>::PerformLazyAstar(g, from, to, std::function<bool(const G&, const GraphEdge&)>([&](const G&, const GraphEdge& x) { return valid(x); }),
                                                     std::function<double(const G&, const GraphEdge&)>([&](const G&, const GraphEdge& x) { return weight(x); }), hf, limit);
      if (which == 1)
        return SimpleGraphAstar<V>::PerformLazyAstar(g, from, to, std::function<bool(const V&, const V&)>([&](const V& a, const V& b) { return nodefn.at({a.id, b.id}).first; }),
                                                     std::function<double(const V&, const V&)>([&](const V& a, const V& b) { return nodefn.at({a.id, b.id}).second; }), hf, limit);
      if (which == 2) return SimpleGraphAstar<V>::PerformAstar(g, from, to, hf, limit);
      return arc_helpers::GenericAstarSearch(from, to, [&](const int64_t i) { std::vector<int64_t> c; for (const auto& x : g.getNode(i).getOutEdges()) c.push_back(x.getToIndex()); return c; },
                                             [&](const int64_t a, const int64_t b) { return nodefn.at({int(a), int(b)}).first; },
                                             [&](const int64_t a, const int64_t b) { return nodefn.at({int(a), int(b)}).second; },
                                             [&](const int64_t a, const int64_t b) { if (b != goal) vh::fail("the heuristic is evaluated towards a node that is not the goal"); return h[a]; }, limit);
    };
    auto throws = [&](int64_t a, int64_t b) { try { run(a, b); return false; } catch (const std::invalid_argument&) { return true; } };
    VH_CHECK(throws(goal, goal), "equal start and goal accepted");
    if (which < 3) VH_CHECK(throws(-1, goal) && throws(n, goal) && throws(s, -1) && throws(s, n), "index outside the graph accepted");
    if (s == goal) continue;
    r = run(s, goal);
    if (togo[s] == INF) { VH_CHECK(r.first.empty() && r.second == INF, "no path exists but cost " << r.second << " and " << r.first.size() << " nodes are reported"); continue; }
    VH_CHECK(!r.first.empty(), "a path exists but none is reported");
    VH_CHECK(r.first.front() == s && r.first.back() == goal, "path leads from " << r.first.front() << " to " << r.first.back());
    double total = 0;
    for (size_t k = 0; k + 1 < r.first.size(); k++) {
      double best = INF;
      for (const auto& x : g.getNode(r.first[k]).getOutEdges()) if (x.getToIndex() == r.first[k + 1] && valid(x)) best = std::min(best, weight(x));
      VH_CHECK(best < INF, "path uses " << r.first[k] << ">" << r.first[k + 1] << ", not a valid edge");
      total += best;
    }
    VH_CHECK(total <= r.second + 1e-9, "path costs " << total << ", reported " << r.second);
    if (hmode != 3) VH_CHECK(std::abs(r.second - togo[s]) < 1e-9, "reported cost " << r.second << ", cheapest is " << togo[s]);
    VH_CHECK(r.second >= togo[s] - 1e-9, "reported cost " << r.second << " is below the cheapest " << togo[s]);
  }
  return vh::done();
}

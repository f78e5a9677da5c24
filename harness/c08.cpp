// The simple A* planner against Bellman-Ford: valid path to the first goal, cheapest when the heuristic is consistent, empty when no goal can be reached.
#include <unordered_set>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_astar_planner.hpp>
#include "vh.hpp"
struct Cfg { int id; std::string tag; bool operator==(const Cfg& o) const { return id == o.id && tag == o.tag; } };
struct Hash { size_t operator()(const Cfg& c) const { return size_t(c.id) % 3; } };   // collides
namespace std { template <> struct hash<Cfg> { size_t operator()(const Cfg& c) const { return size_t(c.id) * 7919; } }; }
typedef simple_astar_planner::SimpleAStarPlanner<Cfg> P;
static const double INF = std::numeric_limits<double>::infinity();
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().coin(1, 40) ? vh::R().in(15, 60) : vh::R().in(1, 8);
    const int e = vh::R().in(0, 3 * n), wmode = vh::R().in(0, 3), hmode = vh::R().in(0, 4), start = vh::R().in(0, n - 1);
    std::vector<std::vector<int>> nb(n);
    std::map<std::pair<int, int>, double> w;
    std::vector<bool> goal(n, false);
    std::ostringstream d;
    d << n << " nodes from " << start << " heuristic " << hmode << " edges:";
    for (int k = 0; k < e; k++) {
      const int a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1);
      nb[a].push_back(b);
      w[{a, b}] = wmode == 0 ? vh::R().in(0, 3) : wmode == 1 ? vh::R().in(1, 100) * 0.25 : wmode == 2 ? 1 : vh::R().in(0, 1000000);
      d << " " << a << ">" << b << ":" << w[{a, b}];
    }
    if (vh::R().coin(1, 4)) {   // a chain through many nodes, with shortcuts
      std::vector<int> order;
      for (int i = 0; i < n; i++) if (i != start) order.push_back(i);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[vh::R().in(0, int(i) - 1)]);
      int at = start;
      for (int x : order) { nb[at].push_back(x); w[{at, x}] = vh::R().in(0, 2); d << " " << at << ">" << x << ":" << w[{at, x}]; at = x; }
      goal[at] = true;
      d << " goal " << at;
    }
    d << " goals:";
    for (int k = vh::R().in(0, 2); k > 0; k--) { const int x = vh::R().in(0, n - 1); goal[x] = true; d << " " << x; }
    std::vector<double> togo(n, INF);
    for (int i = 0; i < n; i++) if (goal[i]) togo[i] = 0;
    for (int it = 0; it < n; it++)
      for (int a = 0; a < n; a++) for (int b : nb[a]) if (!goal[a]) togo[a] = std::min(togo[a], togo[b] + w[{a, b}]);
    std::vector<double> h(n, 0);
    for (int i = 0; i < n; i++) {
      h[i] = hmode == 0 ? 0 : hmode == 1 ? std::min(togo[i], 1e9) : hmode == 2 ? std::min(togo[i], 1e9) / 2 : hmode == 3 ? vh::R().in(0, 60) * 0.25 : std::min(togo[i], 5.0);
    }
    d << " h:";
    for (double x : h) d << " " << x;
    vh::begin_case(d.str(), e > 1);
    auto node = [](int i) { return Cfg{i, std::string(i % 4, 'x')}; };
    int asked = 0;
    std::set<int> expanded;
    std::function<std::vector<Cfg>(const Cfg&)> nf = [&](const Cfg& c) { asked++; expanded.insert(c.id); if (goal[c.id]) vh::fail("a goal is expanded"); std::vector<Cfg> r; for (int b : nb[c.id]) r.push_back(node(b)); return r; };
    std::function<double(const Cfg&, const Cfg&)> df = [&](const Cfg& a, const Cfg& b) { const auto it = w.find({a.id, b.id}); if (it == w.end()) { vh::fail("distance of a pair that is not an edge"); return 0.0; } return it->second; };
    std::function<double(const Cfg&)> hf = [&](const Cfg& c) { return h[c.id]; };
    std::function<bool(const Cfg&)> gf = [&](const Cfg& c) { return bool(goal[c.id]); };
    const auto r = vh::R().coin() ? P::Plan<Hash>(node(start), nf, df, hf, gf) : P::Plan(node(start), nf, df, hf, gf);
    const auto& p = r.first;
    VH_CHECK(p.empty() == (togo[start] == INF), "path " << p.size() << " although the least cost is " << togo[start]);
    VH_CHECK(r.second.at("nodes explored") == double(expanded.size()) && asked == int(expanded.size()), "explored " << r.second.at("nodes explored") << ", expanded " << expanded.size() << ", asked " << asked);
    VH_CHECK(r.second.at("planning time") >= 0 && r.second.size() == 2, "statistics");
    if (p.empty()) continue;
    VH_CHECK(p.front().id == start && goal[p.back().id], "ends " << p.front().id << " " << p.back().id);
    double cost = 0;
    std::set<int> seen;
    for (size_t i = 0; i < p.size(); i++) {
      VH_CHECK(seen.insert(p[i].id).second && p[i] == node(p[i].id), "node " << p[i].id << " twice");
      if (i + 1 < p.size()) {
        const auto it = w.find({p[i].id, p[i + 1].id});
        VH_CHECK(it != w.end() && !goal[p[i].id], "step " << p[i].id << " to " << p[i + 1].id);
        if (it != w.end()) cost += it->second;
      }
    }
    if (hmode != 3) VH_CHECK(cost == togo[start], "cost " << cost << ", least " << togo[start]);
  }
  return vh::done();
}

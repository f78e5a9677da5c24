// PRM roadmap construction, update and queries against brute force.
#include <arc_utilities/simple_prm_planner.hpp>
#include "vh.hpp"
struct S { int id; int x; };
struct Prm : simple_prm_planner::SimpleGeometricPrmPlanner {
  using SimpleGeometricPrmPlanner::AddNodeToRoadmap; using SimpleGeometricPrmPlanner::NEW_STATE_TO_ROADMAP; using SimpleGeometricPrmPlanner::ROADMAP_TO_NEW_STATE;
};
typedef arc_dijkstras::Graph<S> G;
typedef std::function<double(const S&, const S&)> Dist;
typedef std::function<bool(const S&, const S&)> Valid;
const double INF = std::numeric_limits<double>::infinity();
static bool same_edge(const arc_dijkstras::GraphEdge& a, const arc_dijkstras::GraphEdge& b) { return a == b; }
static bool same_graph(const G& a, const G& b) {
  if (a.getNodes().size() != b.getNodes().size()) return false;
  for (size_t i = 0; i < a.getNodes().size(); i++) {
    const auto &x = a.getNodes()[i], &y = b.getNodes()[i];
    if (x.getValue().id != y.getValue().id || x.getValue().x != y.getValue().x || x.getInEdges() != y.getInEdges() || x.getOutEdges() != y.getOutEdges()) return false;
  }
  return true;
}
static std::string show(const G& g) {
  std::ostringstream o;
  for (size_t i = 0; i < g.getNodes().size(); i++) { o << i << "@" << g.getNodes()[i].getValue().x << "["; for (const auto& e : g.getNodes()[i].getOutEdges()) o << e.getToIndex() << ":" << e.getWeight() << " "; o << "] "; }
  return o.str();
}
struct World {
  bool sym; int up, down; uint64_t salt; int bad; bool mute = false;
  World() : sym(vh::R().coin(1, 2)), up(vh::R().in(1, 3)), down(0), salt(vh::R().u64()), bad(vh::R().coin(1, 3) ? 0 : vh::R().in(1, 4)) { down = sym ? up : vh::R().in(1, 4); }
  Dist dist() const { const int u = up, d = down; return [u, d](const S& a, const S& b) { return a.x <= b.x ? 1.0 * u * (b.x - a.x) : 1.0 * d * (a.x - b.x); }; }
  Valid valid() const { const uint64_t s = salt; const int b = bad; return [s, b](const S& p, const S& q) { uint64_t h = (s ^ (uint64_t)(p.x * 131 + q.x + 7777)) * 0x9E3779B97F4A7C15ull; return b == 0 || (int)((h >> 40) % 10) >= b * 2; }; }
};
static void check_add(const G& g0, const G& g1, int64_t ret, const S& s, bool to_new, const Dist& dist, const Valid& valid, size_t K, bool sym, bool dup) {
  const size_t n = g0.getNodes().size();
  auto D = [&](size_t i) { const S& v = g0.getNodes()[i].getValue(); return to_new ? dist(v, s) : dist(s, v); };
  bool zero = false;
  for (size_t i = 0; i < n; i++) zero |= D(i) == 0;
  if (!dup && zero && K >= 1) {
    VH_CHECK(ret >= 0 && ret < (int64_t)n && D(ret) == 0, "a node at distance 0 exists, but " << ret << " was returned");
    VH_CHECK(same_graph(g0, g1), "roadmap changed although the state was there");
    return;
  }
  VH_CHECK(ret == (int64_t)n && g1.getNodes().size() == n + 1, "returned " << ret << ", nodes " << g1.getNodes().size() << " after " << n);
  VH_CHECK(g1.getNodes()[n].getValue().id == s.id, "new node does not hold the state");
  size_t joined = 0;
  for (size_t i = 0; i < n; i++) {
    const auto &a = g0.getNodes()[i], &b = g1.getNodes()[i];
    const S& v = a.getValue();
    VH_CHECK(b.getValue().id == v.id, "node " << i << " changed its value");
    const size_t no = a.getOutEdges().size(), ni = a.getInEdges().size();
    const bool j = b.getOutEdges().size() != no;
    VH_CHECK(b.getOutEdges().size() == no + (j ? 1 : 0) && b.getInEdges().size() == ni + (j ? 1 : 0), "node " << i << " has " << b.getOutEdges().size() << " out and " << b.getInEdges().size() << " in edges after " << no << ", " << ni);
    for (size_t k = 0; k < no; k++) VH_CHECK(same_edge(a.getOutEdges()[k], b.getOutEdges()[k]), "out edge changed at node " << i);
    for (size_t k = 0; k < ni; k++) VH_CHECK(same_edge(a.getInEdges()[k], b.getInEdges()[k]), "in edge changed at node " << i);
    size_t nearer = 0, atmost = 0;
    for (size_t o = 0; o < n; o++) nearer += D(o) < D(i), atmost += D(o) <= D(i);
    const bool ok = valid(v, s);
    if (j) {
      joined++;
      VH_CHECK(ok, "node " << i << " joined by an invalid edge");
      VH_CHECK(nearer < K, "node " << i << " joined, but " << nearer << " nodes are nearer, K " << K);
      const double wo = sym ? D(i) : dist(v, s), wi = sym ? D(i) : dist(s, v);
      VH_CHECK(same_edge(b.getOutEdges()[no], arc_dijkstras::GraphEdge((int64_t)i, (int64_t)n, wo)), "edge from " << i << " to the new node is " << b.getOutEdges()[no].print() << ", distance " << wo);
      VH_CHECK(same_edge(b.getInEdges()[ni], arc_dijkstras::GraphEdge((int64_t)n, (int64_t)i, wi)), "edge from the new node to " << i << " is " << b.getInEdges()[ni].print() << ", distance " << wi);
      for (int dir = 0; dir < 2; dir++) {
        const auto& es = dir ? g1.getNodes()[n].getInEdges() : g1.getNodes()[n].getOutEdges();
        int cnt = 0;
        for (const auto& e : es) cnt += dir ? same_edge(e, b.getOutEdges()[no]) : same_edge(e, b.getInEdges()[ni]);
        VH_CHECK(cnt == 1, "edge between " << i << " and the new node recorded " << cnt << " times at the new node");
      }
    } else {
      VH_CHECK(!ok || atmost > K, "node " << i << " is among the " << K << " nearest with a valid edge but was not joined");
    }
  }
  VH_CHECK(joined <= K && g1.getNodes()[n].getOutEdges().size() == joined && g1.getNodes()[n].getInEdges().size() == joined, "edge counts of the new node");
}
static G random_roadmap(const World& w, std::ostringstream& d, bool check) {
  G g;
  const int n = vh::R().in(0, 9), span = vh::R().in(2, 12);
  const size_t K = vh::R().in(0, 5);
  for (int i = 0; i < n; i++) {
    const S s{i, vh::R().in(0, span)};
    const bool to_new = vh::R().coin(1, 2), dup = vh::R().coin(1, 3);
    const G before = g;
    const int64_t r = Prm::AddNodeToRoadmap(s, to_new ? Prm::ROADMAP_TO_NEW_STATE : Prm::NEW_STATE_TO_ROADMAP, g, w.dist(), w.valid(), K, w.sym, dup);
    if (check) {
      vh::begin_case("roadmap " + show(before) + "add " + std::to_string(s.x) + (to_new ? " leaving" : " entering") + " K " + std::to_string(K) + " up " + std::to_string(w.up) + " down " + std::to_string(w.down) + (dup ? " duplicates" : ""), i > 0);
      check_add(before, g, r, s, to_new, w.dist(), w.valid(), K, w.sym, dup);
      VH_CHECK(g.checkGraphLinkage(), "roadmap is not linked");
    }
  }
  d << "up " << w.up << " down " << w.down << " roadmap " << show(g);
  return g;
}
static std::vector<double> dist_to(const G& g, int64_t goal, const std::function<double(const arc_dijkstras::GraphEdge&)>& wt) {
  const int n = (int)g.getNodes().size();
  std::vector<double> d(n, INF);
  d[goal] = 0;
  for (int it = 0; it < n; it++) for (int i = 0; i < n; i++) for (const auto& e : g.getNodes()[i].getOutEdges()) d[i] = std::min(d[i], wt(e) + d[e.getToIndex()]);
  return d;
}
static void check_path(const G& g, const std::pair<std::vector<S>, double>& r, const std::vector<int64_t>& starts, int64_t goal, const std::function<double(const arc_dijkstras::GraphEdge&)>& wt) {
  const auto d = dist_to(g, goal, wt);
  double best = INF;
  for (int64_t s : starts) best = std::min(best, d[s]);
  VH_CHECK(r.second == best, "cost " << r.second << ", shortest " << best);
  if (best == INF) { VH_CHECK(r.first.empty(), "a path of infinite cost"); return; }
  VH_CHECK(!r.first.empty(), "no path, cost " << best);
  bool ok = false;
  for (int64_t s : starts) ok |= g.getNodes()[s].getValue().id == r.first.front().id && d[s] == best;
  VH_CHECK(ok, "path starts at state " << r.first.front().id);
  VH_CHECK(r.first.back().id == g.getNodes()[goal].getValue().id, "path ends at state " << r.first.back().id);
  double sum = 0;
  for (size_t k = 0; k + 1 < r.first.size(); k++) {
    if (k == 0 && r.first.size() == 2 && r.first[0].id == r.first[1].id) continue;
    double w = INF;
    for (const auto& nd : g.getNodes()) if (nd.getValue().id == r.first[k].id) for (const auto& e : nd.getOutEdges()) if (g.getNode(e.getToIndex()).getValue().id == r.first[k + 1].id) w = std::min(w, wt(e));
    VH_CHECK(w < INF, "no edge between states " << r.first[k].id << " and " << r.first[k + 1].id);
    sum += w;
  }
  VH_CHECK(sum == best, "path length " << sum << ", cost " << best);
}
static bool same_result(const std::pair<std::vector<S>, double>& a, const std::pair<std::vector<S>, double>& b) {
  if (a.second != b.second || a.first.size() != b.first.size()) return false;
  for (size_t i = 0; i < a.first.size(); i++) if (a.first[i].id != b.first[i].id) return false;
  return true;
}
int main() {
  vh::init(3);
  vh::begin_section();
  while (vh::more()) { World w; std::ostringstream d; random_roadmap(w, d, true); }
  vh::begin_section();
  while (vh::more()) {   // update, extension
    World w, w2;
    std::ostringstream d;
    G g = random_roadmap(w, d, false);
    const int n = (int)g.getNodes().size();
    for (int k = vh::R().in(0, 4); k > 0 && n > 1; k--) { const int a = vh::R().in(0, n - 1), b = vh::R().in(0, n - 1); if (a != b) g.addEdgeBetweenNodes(a, b, vh::R().in(0, 5)); }
    const G before = g;
    const bool broken = n > 1 && vh::R().coin(1, 4);
    if (broken) { const int a = vh::R().in(0, n - 1); if (vh::R().coin(1, 2)) g.getNode(a).getOutEdges().push_back(arc_dijkstras::GraphEdge(a, vh::R().in(-1, n), 1)); else g.getNode(a).getInEdges().push_back(arc_dijkstras::GraphEdge(vh::R().in(-1, n), a, 1)); }
    const G given = g;
    const bool linked = g.checkGraphLinkage();
    vh::begin_case("update " + show(g) + " new up " + std::to_string(w2.up) + " down " + std::to_string(w2.down) + " bad " + std::to_string(w2.bad), n > 1);
    bool thrown = false;
    try { Prm::UpdateRoadMapEdges(g, w2.valid(), w2.dist()); } catch (const std::invalid_argument&) { thrown = true; }
    VH_CHECK(thrown == !linked, "linked " << linked << ", thrown " << thrown);
    if (thrown) VH_CHECK(same_graph(g, given), "refused roadmap changed");
    else for (int i = 0; i < n; i++) for (int dir = 0; dir < 2; dir++) {
      const auto &es = dir ? g.getNode(i).getInEdges() : g.getNode(i).getOutEdges(), &e0 = dir ? given.getNode(i).getInEdges() : given.getNode(i).getOutEdges();
      VH_CHECK(es.size() == e0.size() && g.getNode(i).getValue().id == given.getNode(i).getValue().id, "edges of node " << i << " changed in number");
      for (size_t k = 0; k < es.size(); k++) {
        const S &a = given.getNode(e0[k].getFromIndex()).getValue(), &b = given.getNode(e0[k].getToIndex()).getValue();
        arc_dijkstras::GraphEdge want = e0[k];
        want.setWeight(w2.valid()(a, b) ? w2.dist()(a, b) : INF);
        VH_CHECK(same_edge(es[k], want), (dir ? "in" : "out") << " edge " << es[k].print() << " of node " << i << " should be " << want.print());
      }
    }
    if (vh::R().coin(1, 2)) {
      int left = vh::R().in(0, 8), id = 100, asked = 0;
      const size_t K = vh::R().in(0, 4);
      std::vector<int> xs;
      const bool dup = vh::R().coin(1, 2);
      G h = before, m = before;
      const bool build = vh::R().coin(1, 3);
      if (build) h = G(), m = G();
      const std::function<S()> smp = [&]() { const int x = vh::R().in(0, 15); xs.push_back(x); return S{id++, x}; };
      const std::function<bool(const S&)> sv = [](const S& s) { return s.x % 3 != 1; };
      const std::function<bool()> te = [&]() { return asked++ >= left; };
      if (build) h = Prm::BuildRoadMap(smp, w.dist(), sv, w.valid(), te, K, w.sym, dup); else Prm::ExtendRoadMap(h, smp, w.dist(), sv, w.valid(), te, K, w.sym, dup);
      VH_CHECK(asked == left + 1 && (int)xs.size() == left, "termination asked " << asked << " times, " << xs.size() << " samples for " << left);
      for (int k = 0; k < left; k++) if (xs[k] % 3 != 1) Prm::AddNodeToRoadmap(S{100 + k, xs[k]}, Prm::ROADMAP_TO_NEW_STATE, m, w.dist(), w.valid(), K, w.sym, dup);
      VH_CHECK(same_graph(h, m), "extended roadmap is not the one of adding the valid samples in turn");
    }
  }
  vh::begin_section();
  while (vh::more()) {   // queries
    World w;
    std::ostringstream d;
    const G g0 = random_roadmap(w, d, false);
    const size_t K = vh::R().in(1, 5);
    const bool dup = vh::R().coin(1, 2), limit = vh::R().coin(1, 2);
    std::vector<S> starts, goals;
    for (int k = vh::R().in(0, 3); k >= 0; k--) starts.push_back(S{1000 + k, vh::R().in(0, 12)});
    for (int k = vh::R().in(0, 3); k >= 0; k--) goals.push_back(S{2000 + k, vh::R().in(0, 12)});
    const S &start = starts[0], &goal = goals[0];
    d << " starts"; for (const S& s : starts) d << " " << s.x;
    d << " goals"; for (const S& s : goals) d << " " << s.x;
    d << " K " << K << (dup ? " duplicates" : "");
    vh::begin_case(d.str(), g0.getNodes().size() > 1);
    const auto D = w.dist(); const auto V = w.valid();
    const auto stored = [](const arc_dijkstras::GraphEdge& e) { return e.getWeight(); };
    {
      G m = g0, g = g0;
      const int64_t s = Prm::AddNodeToRoadmap(start, Prm::NEW_STATE_TO_ROADMAP, m, D, V, K, w.sym, dup), t = Prm::AddNodeToRoadmap(goal, Prm::ROADMAP_TO_NEW_STATE, m, D, V, K, w.sym, dup);
      const auto lazy = [&](const arc_dijkstras::GraphEdge& e) { const S &a = m.getNode(e.getFromIndex()).getValue(), &b = m.getNode(e.getToIndex()).getValue(); return V(a, b) ? D(a, b) : INF; };
      for (int kind = 0; kind < 2; kind++) {
        g = g0;
        bool thrown = false;
        std::pair<std::vector<S>, double> r, c;
        try { r = kind ? Prm::LazyQueryPathAndAddNodesSingleStartSingleGoal(start, goal, g, V, D, K, w.sym, dup, limit) : Prm::QueryPathAndAddNodesSingleStartSingleGoal(start, goal, g, V, D, K, w.sym, dup, limit); }
        catch (const std::invalid_argument&) { thrown = true; }
        VH_CHECK(thrown == (s == t), "start and goal node " << s << " " << t << ", thrown " << thrown);
        VH_CHECK(same_graph(g, m), "roadmap after the query is not the one with start and goal added");
        if (thrown) continue;
        if (kind) check_path(m, r, {s}, t, lazy); else check_path(m, r, {s}, t, stored);
        const G g1 = g0;
        c = kind ? Prm::LazyQueryPathSingleStartSingleGoal(start, goal, g1, V, D, K, w.sym, dup, limit) : Prm::QueryPathSingleStartSingleGoal(start, goal, g1, V, D, K, w.sym, dup, limit);
        VH_CHECK(same_graph(g1, g0) && same_result(c, r), "query on a copy differs");
      }
    }
    const bool none = vh::R().coin(1, 20);
    if (none) starts.clear();
    double best = INF;
    std::vector<std::pair<std::vector<S>, double>> rs;
    for (const S& gl : goals) {
      G m = g0, g = g0;
      std::vector<int64_t> ss;
      for (const S& s : starts) ss.push_back(Prm::AddNodeToRoadmap(s, Prm::NEW_STATE_TO_ROADMAP, m, D, V, K, w.sym, dup));
      const int64_t t = Prm::AddNodeToRoadmap(gl, Prm::ROADMAP_TO_NEW_STATE, m, D, V, K, w.sym, dup);
      rs.push_back(Prm::QueryPathAndAddNodesMultiStartSingleGoal(starts, gl, g, V, D, K, w.sym, dup));
      VH_CHECK(same_graph(g, m), "roadmap after the query is not the one with starts and goal added");
      check_path(m, rs.back(), ss, t, stored);
      VH_CHECK(same_result(Prm::QueryPathMultiStartSingleGoal(starts, gl, g0, V, D, K, w.sym, dup), rs.back()), "query on a copy differs");
      best = std::min(best, rs.back().second);
    }
    if (none && vh::R().coin(1, 2)) goals.clear(), rs.clear(), best = INF;
    const auto r = Prm::QueryPathMultiStartMultiGoal(starts, goals, g0, V, D, K, w.sym, dup);
    VH_CHECK(r.second == best, "cost " << r.second << ", best goal " << best);
    bool ok = best == INF && r.first.empty();
    for (const auto& x : rs) ok |= x.second == best && same_result(x, r);
    VH_CHECK(ok, "the answer is that of no goal");
  }
  return vh::done();
}

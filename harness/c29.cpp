// RRT planners: trees stay linked, goals are the ones the goal check says, paths follow the trees. The callbacks record what they are asked.
#include <string>
#include <arc_utilities/simple_rrt_planner.hpp>
#include "vh.hpp"
using namespace simple_rrt_planner;
typedef int64_t S;
typedef SimpleRRTPlannerState<S> N;
typedef std::vector<N> Tree;
typedef std::vector<S> Path;
typedef SimpleHybridRRTPlanner P;
typedef SimpleHybridBiRRTPlanner B;
typedef std::function<void(Tree&, const int64_t)> Callback;
typedef std::function<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> Bridge;
typedef std::map<std::string, double> Stats;

static std::string show(const Tree& t) {
  std::ostringstream o;
  for (const auto& n : t) {
    o << "(" << (n.IsInitialized() ? "" : "!") << n.GetValueImmutable() << "^" << n.GetParentIndex() << "[";
    for (auto c : n.GetChildIndices()) o << c << " ";
    o << "])";
  }
  return o.str();
}
static std::string show(const Path& p) {
  std::ostringstream o;
  for (auto x : p) o << x << " ";
  return o.str();
}
static bool contains(const std::vector<int64_t>& v, int64_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static bool linked(const Tree& t) {
  const int64_t n = t.size();
  for (int64_t i = 0; i < n; i++) {
    if (!t[i].IsInitialized()) return false;
    const int64_t p = t[i].GetParentIndex();
    if (p != -1 && (p < 0 || p >= n || p == i || !contains(t[p].GetChildIndices(), i))) return false;
    for (int64_t c : t[i].GetChildIndices())
      if (c <= 0 || c >= n || c == i || !t[c].IsInitialized() || t[c].GetParentIndex() != i) return false;
  }
  return true;
}
// a forest in which parents come first, possibly damaged
static Tree random_tree(int n, S first, bool damage) {
  Tree t;
  for (int i = 0; i < n; i++) {
    const int64_t p = i == 0 || vh::R().coin(1, 12) ? -1 : vh::R().in(0, i - 1);
    t.emplace_back(first + i, p);
    if (p >= 0) t[p].AddChildIndex(i);
  }
  for (int d = damage ? vh::R().in(1, 2) : 0; d > 0 && n > 0; d--) {
    N& x = t[vh::R().in(0, n - 1)];
    const int64_t to = vh::R().in(-2, n + 2);
    switch (vh::R().in(0, 4)) {
      case 0: x.SetParentIndex(to); break;
      case 1: x.AddChildIndex(to); break;
      case 2: if (!x.GetChildIndices().empty()) x.RemoveChildIndex(vh::R().pick(x.GetChildIndices())); break;
      case 3: x.ClearChildIndicies(); break;
      default: { const auto c = x.GetChildIndices(); const auto p = x.GetParentIndex(); x = N(); x.SetParentIndex(p); for (auto y : c) x.AddChildIndex(y); }
    }
  }
  return t;
}

static void linkage() {
  const Tree t = random_tree(vh::R().in(0, 7), vh::R().in(0, 50), vh::R().coin(3, 4));
  vh::begin_case("CheckTreeLinkage of " + show(t), t.size() > 1);
  VH_CHECK(P::CheckTreeLinkage(t) == linked(t), "the links are " << (linked(t) ? "" : "not ") << "valid");
}

static void lists() {
  N n(vh::R().in(0, 9), vh::R().in(-1, 5));
  std::vector<int64_t> want;
  std::ostringstream o;
  o << "child list:";
  std::vector<std::pair<bool, int64_t>> ops;
  for (int i = vh::R().in(0, 10); i > 0; i--) {
    ops.emplace_back(vh::R().coin(2, 3), vh::R().in(0, 5));
    o << (ops.back().first ? " add " : " remove ") << ops.back().second;
  }
  vh::begin_case(o.str(), ops.size() > 1);
  for (const auto& op : ops) {
    if (op.first) {
      n.AddChildIndex(op.second);
      if (!contains(want, op.second)) want.push_back(op.second);
    } else {
      n.RemoveChildIndex(op.second);
      want.erase(std::remove(want.begin(), want.end(), op.second), want.end());
    }
    VH_CHECK(n.GetChildIndices() == want, "child list is " << show(n.GetChildIndices()) << "instead of " << show(want));
  }
  std::vector<uint8_t> buf(vh::R().in(0, 5), 7);
  const size_t at = buf.size();
  const uint64_t w = N::Serialize(n, buf, arc_utilities::SerializeFixedSizePOD<int64_t>);
  const auto r = N::Deserialize(buf, at, arc_utilities::DeserializeFixedSizePOD<int64_t>);
  VH_CHECK(w == buf.size() - at && r.second == w && r.first.GetValueImmutable() == n.GetValueImmutable() && r.first.GetParentIndex() == n.GetParentIndex() && r.first.IsInitialized() && r.first.GetChildIndices() == want,
           "a planner state changes when it is saved and loaded");
}

// the callbacks of one planning problem
struct World {
  uint64_t seed = 0, grows = 0, samples = 0, fails = 0;
  int iterations = 0, goal_rate = 5, connect_rate = 3;
  bool bad_parent = false, quit = false, threw = false;
  S next = 1000;
  vh::Rng g;
  std::map<S, S> parent;  // of every state propagated
  std::function<int64_t(const Tree&, const S&)> nearest = [this](const Tree& t, const S&) -> int64_t { return quit && g.coin(1, 6) ? -1 : g.in(0, t.size() - 1); };
  std::function<bool(const S&)> goal = [this](const S& s) { return is_goal(s); };
  std::function<bool(const S&, const S&)> connected = [this](const S& a, const S& b) { return connects(a, b); };
  std::function<S()> sample = [this]() { samples++; return g.in(0, 3000); };
  std::function<std::vector<std::pair<S, int64_t>>(const S&, const S&)> grow = [this](const S& near, const S&) {
    std::vector<std::pair<S, int64_t>> r;
    const int n = g.coin(1, 4) ? 0 : g.in(1, 4);
    for (int i = 0; i < n; i++) {
      int64_t p = i == 0 || g.coin(1, 3) ? -1 - g.in(0, 2) : g.in(0, i - 1);
      if (bad_parent && g.coin(1, 10)) { p = g.in(i, i + 2); threw = true; }
      parent[next] = p < 0 ? near : p < i ? r[p].first : -1;
      r.emplace_back(next++, p);
      if (threw) break;
    }
    (n == 0 ? fails : grows)++;
    return r;
  };
  std::function<bool()> stop = [this]() { return iterations-- <= 0; };
  bool is_goal(S s) const { return goal_rate > 0 && (static_cast<uint64_t>(s) * 2654435761u + seed) % 97 % goal_rate == 0; }
  bool connects(S a, S b) const { return connect_rate > 0 && (static_cast<uint64_t>(a + b) * 2654435761u + seed) % 97 % connect_rate == 0; }
  World() {
    seed = vh::R().in(0, 96);
    g.g.seed(vh::R().u64());
    iterations = vh::R().in(0, 14);
    goal_rate = vh::R().in(0, 6);
    connect_rate = vh::R().in(0, 4);
    bad_parent = vh::R().coin(1, 5);
    quit = vh::R().coin(1, 5);
  }
  World(const World&) = delete;
};
static std::string world(const World& w, uint64_t seed) {
  std::ostringstream o;
  o << "iterations " << w.iterations << ", goals " << w.goal_rate << ", connections " << w.connect_rate << (w.bad_parent ? ", bad relative parents" : "") << ", hash " << w.seed << ", case " << seed;
  return o.str();
}
// t: t0 with the states of w added
static void check_tree(const World& w, const Tree& t0, const Tree& t, const char* what) {
  VH_CHECK(linked(t), what << " is not linked: " << show(t));
  VH_CHECK(t.size() >= t0.size(), what << " lost nodes");
  for (size_t i = 0; i < t.size(); i++) {
    const S v = t[i].GetValueImmutable();
    if (i < t0.size()) VH_CHECK(v == t0[i].GetValueImmutable() && t[i].GetParentIndex() == t0[i].GetParentIndex(), what << " changes node " << i << ": " << show(t));
    else VH_CHECK(w.parent.count(v) && t[i].GetParentIndex() >= 0 && w.parent.at(v) == t[t[i].GetParentIndex()].GetValueImmutable(), what << ": node " << i << " is linked to another parent than the one it was propagated from: " << show(t));
  }
}
static Path up(const Tree& t, int64_t i) {
  Path p;
  for (; i != -1; i = t[i].GetParentIndex()) p.push_back(t[i].GetValueImmutable());
  return p;
}
static void check_stats(const World& w, const Stats& s, size_t states, size_t solutions) {
  VH_CHECK(s.at("solutions") == solutions && s.at("total_states") == states, "statistics: " << s.at("solutions") << " solutions, " << s.at("total_states") << " states instead of " << solutions << ", " << states);
  VH_CHECK(s.at("successful_samples") == w.grows && s.at("failed_samples") == w.fails && s.at("total_samples") == w.grows + w.fails, "statistics count samples wrongly");
}

static void single() {
  const uint64_t seed = vh::R().u64();
  World w;
  Tree t0 = random_tree(vh::R().in(0, 4), vh::R().in(0, 90), vh::R().coin(1, 8));
  const int form = vh::R().in(0, 4);
  if (form != 0) t0 = Tree(1, N(vh::R().in(0, 90)));
  vh::begin_case("single tree, form " + std::to_string(form) + ", " + world(w, seed) + ", from " + show(t0), w.iterations > 0);
  Tree t = form == 2 ? random_tree(3, 5, true) : t0;
  std::vector<int64_t> added, goals;
  const Callback on_add = [&](Tree& x, const int64_t i) {
    VH_CHECK(&x == &t && i == static_cast<int64_t>(x.size()) - 1 && linked(x), "the added state is not the last node of a linked tree: " << show(x));
    added.push_back(i);
  };
  const Callback on_goal = [&](Tree& x, const int64_t i) {
    VH_CHECK(form == 1 || (&x == &t && linked(x)), "goal callback with an invalid tree");
    VH_CHECK(w.is_goal(x.at(i).GetValueImmutable()), "goal callback for a state that is no goal");
    goals.push_back(i);
  };
  bool stop_early = form >= 3;
  std::pair<std::vector<Path>, Stats> r;
  std::string thrown;
  try {
    if (form == 0) r = P::PlanMultiPath(t, w.nearest, on_add, w.goal, on_goal, w.sample, w.grow, w.stop);
    if (form == 1) r = P::PlanMultiPath(t0[0].GetValueImmutable(), w.nearest, w.goal, on_goal, w.sample, w.grow, w.stop);
    if (form == 2) r = P::PlanMultiPath(t, t0[0].GetValueImmutable(), w.nearest, w.goal, on_goal, w.sample, w.grow, w.stop);
    if (form >= 3) {
      const auto one = form == 3 ? P::Plan(t, t0[0].GetValueImmutable(), w.nearest, w.goal, w.sample, w.grow, w.stop) : P::Plan(t0[0].GetValueImmutable(), w.nearest, w.goal, w.sample, w.grow, w.stop);
      r.second = one.second;
      if (!one.first.empty()) r.first.push_back(one.first);
    }
  } catch (const std::invalid_argument& e) {
    thrown = e.what();
  }
  VH_CHECK(thrown.empty() == !(t0.empty() || !linked(t0) || w.threw), "invalid_argument " << (thrown.empty() ? "expected" : thrown));
  if (!thrown.empty()) return;
  if (form == 1 || form == 4) {  // the tree is not returned: the paths follow the propagated states
    for (const Path& p : r.first) {
      VH_CHECK(!p.empty() && p[0] == t0[0].GetValueImmutable() && w.is_goal(p.back()), "the path does not lead from the start to a goal: " << show(p));
      for (size_t i = 1; i < p.size(); i++) VH_CHECK(w.parent.count(p[i]) && w.parent[p[i]] == p[i - 1], "the path takes a step that was not propagated: " << show(p));
    }
    size_t all = w.is_goal(t0[0].GetValueImmutable());
    for (const auto& x : w.parent) all += w.is_goal(x.first);
    VH_CHECK(stop_early ? (r.first.size() == (all > 0)) : r.first.size() == all, r.first.size() << " paths, " << all << " goals");
    check_stats(w, r.second, 1 + w.parent.size(), all);
    return;
  }
  check_tree(w, t0, t, "the tree");
  std::vector<int64_t> want;
  for (size_t i = 0; i < t.size(); i++)
    if (w.is_goal(t[i].GetValueImmutable())) want.push_back(i);
  if (form == 0) VH_CHECK(added.size() == t.size() - t0.size(), "not every added state is reported");
  if (form != 3) VH_CHECK(goals == want, "the goal callback is called for " << show(goals) << "instead of " << show(want));
  check_stats(w, r.second, t.size(), want.size());
  VH_CHECK(t.size() == t0.size() + w.parent.size(), "not every propagated state is in the tree");
  if (stop_early && want.size() > 1) want.resize(1);
  VH_CHECK(r.first.size() == want.size(), r.first.size() << " paths for the goals " << show(want) << "in " << show(t));
  for (size_t k = 0; k < want.size(); k++) {
    Path p = up(t, want[k]);
    std::reverse(p.begin(), p.end());
    VH_CHECK(r.first[k] == p, "path " << show(r.first[k]) << "instead of " << show(p));
  }
}

static void two() {
  const uint64_t seed = vh::R().u64();
  World w;
  Tree s0 = random_tree(vh::R().in(vh::R().coin(1, 12) ? 0 : 1, 3), vh::R().in(0, 90), vh::R().coin(1, 12)), g0 = random_tree(vh::R().in(vh::R().coin(1, 12) ? 0 : 1, 3), vh::R().in(100, 190), vh::R().coin(1, 12));
  const int form = vh::R().in(0, 2);
  if (form != 0) { s0 = Tree(1, N(vh::R().in(0, 90))); g0 = Tree(1, N(vh::R().in(100, 190))); }
  const double bias = vh::R().pick(std::vector<double>{0.0, .5, .8, 1.0}), swap = vh::R().pick(std::vector<double>{0.0, .3, .7, 1.0});
  std::ostringstream o;
  o << "two trees, form " << form << ", bias " << bias << ", swap " << swap << ", " << world(w, seed) << ", from " << show(s0) << " and " << show(g0);
  vh::begin_case(o.str(), w.iterations > 0);
  Tree s = s0, g = g0;
  std::vector<std::pair<int64_t, int64_t>> bridges;
  const Callback on_add = [&](Tree& x, const int64_t i) {
    VH_CHECK((&x == &s || &x == &g) && i == static_cast<int64_t>(x.size()) - 1 && linked(x), "the added state is not the last node of a linked tree: " << show(x));
  };
  const Bridge on_bridge = [&](Tree& x, const int64_t i, Tree& y, const int64_t j, const bool) {
    VH_CHECK(&x == &s && &y == &g, "the bridge does not lead from the start tree to the goal tree");
    VH_CHECK(w.connects(x.at(i).GetValueImmutable(), y.at(j).GetValueImmutable()), "the bridge joins states that are not connected");
    bridges.emplace_back(i, j);
  };
  std::mt19937_64 rng(seed);
  std::pair<std::vector<Path>, Stats> r;
  std::string thrown;
  try {
    if (form == 0) r = B::PlanMultiPath(s, g, w.nearest, on_add, w.connected, on_bridge, w.sample, w.grow, bias, swap, w.stop, rng);
    if (form == 1) r = B::PlanMultiPath(s0[0].GetValueImmutable(), g0[0].GetValueImmutable(), w.nearest, w.connected, w.sample, w.grow, bias, swap, w.stop, rng);
    if (form == 2) {  // stops when connected: only when there is something to find
      if (w.connect_rate == 0) w.connect_rate = 1;
      w.quit = true;
      const auto one = B::Plan(s0[0].GetValueImmutable(), g0[0].GetValueImmutable(), w.nearest, w.connected, w.sample, w.grow, bias, swap, std::chrono::duration<double>(5), rng);
      r.second = one.second;
      if (!one.first.empty()) r.first.push_back(one.first);
    }
  } catch (const std::invalid_argument& e) {
    thrown = e.what();
  }
  VH_CHECK(thrown.empty() == !(s0.empty() || g0.empty() || !linked(s0) || !linked(g0) || w.threw), "invalid_argument " << (thrown.empty() ? "expected" : thrown));
  if (!thrown.empty()) return;
  if (form != 0) {  // the trees are not returned: a path is a start half and a goal half
    for (const Path& p : r.first) {
      VH_CHECK(p.size() >= 2 && p[0] == s0[0].GetValueImmutable() && p.back() == g0[0].GetValueImmutable(), "the path does not lead from the start to the goal: " << show(p));
      size_t k = 1;
      while (k < p.size() && w.parent.count(p[k]) && w.parent[p[k]] == p[k - 1]) k++;
      VH_CHECK(k < p.size() && w.connects(p[k - 1], p[k]), "the path crosses between states that are not connected: " << show(p));
      for (k++; k < p.size(); k++) VH_CHECK(w.parent.count(p[k - 1]) && w.parent[p[k - 1]] == p[k], "the path takes a step that was not propagated: " << show(p));
    }
    check_stats(w, r.second, 2 + w.parent.size(), form == 1 ? r.first.size() : r.second.at("solutions"));
    if (form == 2) VH_CHECK((r.second.at("solutions") > 0) == (r.first.size() > 0), "Plan returns no path although it found one");
    return;
  }
  check_tree(w, s0, s, "the start tree");
  check_tree(w, g0, g, "the goal tree");
  VH_CHECK(s.size() + g.size() == s0.size() + g0.size() + w.parent.size(), "not every propagated state is in a tree");
  for (size_t i = 0; i < s0.size(); i++)
    for (size_t j = 0; j < g0.size(); j++)
      VH_CHECK(!w.connects(s0[i].GetValueImmutable(), g0[j].GetValueImmutable()) || std::find(bridges.begin(), bridges.end(), std::pair<int64_t, int64_t>(i, j)) != bridges.end(), "the connected states " << i << ", " << j << " of the given trees are no bridge");
  check_stats(w, r.second, s.size() + g.size(), bridges.size());
  VH_CHECK(r.first.size() == bridges.size(), r.first.size() << " paths, " << bridges.size() << " bridges");
  for (size_t k = 0; k < bridges.size(); k++) {
    Path p = up(s, bridges[k].first), q = up(g, bridges[k].second);
    std::reverse(p.begin(), p.end());
    p.insert(p.end(), q.begin(), q.end());
    VH_CHECK(r.first[k] == p, "path " << show(r.first[k]) << "instead of " << show(p));
  }
}

int main() {
  vh::init(4);
  std::cerr.setstate(std::ios::failbit);
  vh::begin_section();
  while (vh::more()) linkage();
  vh::begin_section();
  while (vh::more()) lists();
  vh::begin_section();
  while (vh::more()) single();
  vh::begin_section();
  while (vh::more()) two();
  return vh::done();
}

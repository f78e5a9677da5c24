// Shortcut smoothing, resampling and upsampling of paths, with callbacks that record what they are asked.
#include <cassert>
#include <iostream>
#include <queue>
#include <random>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/path_utils.hpp>
#include "vh.hpp"
struct S {
  int a = -1, b = -1;  // the state itself is (a, a, 0)
  double ratio = 0;
};
static S state(int i) {
  S s;
  s.a = s.b = i;
  return s;
}
static std::string show(const S& s) {
  std::ostringstream o;
  o << "(" << s.a << "," << s.b << "," << s.ratio << ")";
  return o.str();
}
static bool same(const S& x, const S& y) {
  return x.a == y.a && x.b == y.b && std::abs(x.ratio - y.ratio) < 1e-9;
}
typedef std::vector<S> Path;

static void shortcut() {
  const int n = vh::R().coin(1, 8) ? vh::R().in(0, 80) : vh::R().in(0, 12);
  Path p;
  for (int i = 0; i < n; i++) p.push_back(state(i));
  const uint32_t mi = vh::R().in(0, vh::R().coin() ? 4 : 60), mf = vh::R().in(0, vh::R().coin() ? 3 : 30);
  const double frac = vh::R().coin(1, 6) ? 0.0 : vh::R().coin(1, 4) ? 1.0 : vh::R().unit();
  const uint64_t seed = vh::R().u64();
  const int kind = vh::R().in(0, 3);
  std::ostringstream o;
  o << "ShortcutSmoothPath of " << n << " states, " << mi << " iterations, " << mf << " failures, fraction " << frac << ", edges " << kind << ", seed " << seed;
  vh::begin_case(o.str(), n > 2);
  std::mt19937_64 g(seed);
  const auto ok = [&](int a, int b) { return kind == 0 ? true : kind == 1 ? false : kind == 2 ? (a * 31 + b * 17 + seed) % 3 != 0 : b - a <= 3; };
  long calls = 0, failed = 0;
  const std::function<bool(const S&, const S&)> fn = [&](const S& x, const S& y) {
    VH_CHECK(x.a == x.b && y.a == y.b && 0 <= x.a && x.a < n && 0 <= y.a && y.a < n, "the edge checked does not join states of the path: " << show(x) << " " << show(y));
    VH_CHECK(failed < (long)mf, "an edge is checked after " << failed << " failures");
    calls++;
    const bool r = ok(x.a, y.a);
    failed += !r;
    return r;
  };
  const Path r = path_utils::ShortcutSmoothPath(p, mi, mf, frac, fn, g);
  VH_CHECK(calls <= (long)mi, calls << " edges are checked in " << mi << " iterations");
  VH_CHECK((int)r.size() <= n && (n < 2 ? (int)r.size() == n : r.size() >= 2), "the result has " << r.size() << " states");
  if (n == 0) return;
  VH_CHECK(r.front().a == 0 && r.back().a == n - 1, "the result leads from " << show(r.front()) << " to " << show(r.back()));
  for (size_t i = 0; i + 1 < r.size(); i++) {
    VH_CHECK(r[i].a < r[i + 1].a, "states " << show(r[i]) << " and " << show(r[i + 1]) << " are out of order");
    VH_CHECK(r[i + 1].a == r[i].a + 1 || ok(r[i].a, r[i + 1].a), "the step from " << show(r[i]) << " to " << show(r[i + 1]) << " is neither in the path nor valid");
  }
  if (mf == 0 || mi == 0) VH_CHECK((int)r.size() == n, "the path is changed without an iteration");
  // with room for many attempts some shortcut is found when every edge is valid
  if (kind == 0 && n > 8 && mi >= 40 && mf > 0 && frac == 1.0) VH_CHECK((int)r.size() < n, "no shortcut is found");
}

struct Fns {
  std::vector<double> d;  // distance between state i and i + 1
  int lo = 0, hi = 0;
  double dist(const S& x, const S& y) const {
    if (!(x.a == x.b && y.a == y.b && y.a == x.a + 1 && x.a >= lo && y.a < hi)) vh::fail("the distance of " + show(x) + " and " + show(y) + " is asked");
    return d[x.a];
  }
  S interp(const S& x, const S& y, double t) const {
    if (!(x.a == x.b && y.a == y.b && y.a == x.a + 1 && x.a >= lo && y.a < hi && t >= 0 && t <= 1 + 1e-9)) vh::fail("the state between " + show(x) + " and " + show(y) + " at " + std::to_string(t) + " is asked");
    if (t < 1e-12) return x;
    if (t > 1 - 1e-12) return y;
    S r;
    r.a = x.a, r.b = y.a, r.ratio = t;
    return r;
  }
};

template <typename F>
static bool rejects(F f) {
  try {
    f();
  } catch (const std::invalid_argument&) {
    return true;
  }
  return false;
}

static void resample() {
  const int n = vh::R().in(0, 8);
  Path p;
  Fns f;
  for (int i = 0; i < n; i++) p.push_back(state(i));
  const double res = vh::R().coin() ? 0.5 : vh::R().coin() ? 1.0 : 0.3;
  std::vector<long> seg;
  std::ostringstream o;
  o << "ResamplePath of " << n << " states, resolution " << res << ", intervals";
  for (int i = 0; i + 1 < n; i++) {
    long s = vh::R().in(0, 4);
    if (vh::R().coin(1, 10)) s = vh::R().in(5, 300);
    double d = s == 0 ? 0 : (s - vh::R().real(0.05, 0.95)) * res;
    if (res != 0.3 && vh::R().coin(1, 3)) d = s * res;  // exact
    f.d.push_back(d);
    seg.push_back(s);
    o << " " << s;
  }
  const bool part = vh::R().coin();
  long lo = 0, hi = n;
  if (part) {
    lo = vh::R().in(0, n + 1), hi = vh::R().in(0, n + 2);
    if (vh::R().coin() && n > 0) {
      lo = vh::R().in(0, n - 1);
      hi = vh::R().in(lo + 1, n);
    }
    o << " range " << lo << " " << hi;
  }
  vh::begin_case(o.str(), hi - lo >= 2);
  f.lo = lo, f.hi = hi;
  const std::function<double(const S&, const S&)> d = [&](const S& x, const S& y) { return f.dist(x, y); };
  const std::function<S(const S&, const S&, const double)> ip = [&](const S& x, const S& y, const double t) { return f.interp(x, y, t); };
  const auto call = [&] { return part ? path_utils::ResamplePathPartial(p, lo, hi, res, d, ip) : path_utils::ResamplePath(p, res, d, ip); };
  if (lo >= hi || hi > n) {
    VH_CHECK(rejects(call), "an impossible range is accepted");
    return;
  }
  const Path r = call();
  Path want(1, p[lo]);
  for (long k = lo; k + 1 < hi; k++)
    for (long t = 1; t <= seg[k]; t++) want.push_back(f.interp(p[k], p[k + 1], (double)t / seg[k]));
  VH_CHECK(r.size() == want.size(), "the result has " << r.size() << " states instead of " << want.size());
  for (size_t i = 0; i < r.size(); i++) VH_CHECK(same(r[i], want[i]), "state " << i << " is " << show(r[i]) << " instead of " << show(want[i]));
}

static void upsample() {
  const int n = vh::R().in(1, 8);
  Path p;
  Fns f;
  for (int i = 0; i < n; i++) p.push_back(state(i));
  const bool part = vh::R().coin();
  long lo = 0, hi = n;
  if (part) lo = vh::R().in(0, n - 1), hi = vh::R().in(lo + 1, n);
  const long have = hi - lo;
  long num = have + vh::R().in(0, vh::R().coin(1, 6) ? 200 : 12);
  if (have == 1) num = vh::R().in(0, 1);
  else if (vh::R().coin(1, 6)) num = vh::R().in(0, have);
  std::ostringstream o;
  o << "UpsamplePath of " << n << " states, range " << lo << " " << hi << (part ? " (partial)" : "") << " to " << num << ", distances";
  for (int i = 0; i + 1 < n; i++) {
    f.d.push_back(vh::R().coin() ? (double)vh::R().in(0, 4) : vh::R().coin(1, 4) ? vh::R().real(0, 100) : vh::R().real(0, 2));
    o << " " << f.d.back();
  }
  vh::begin_case(o.str(), num > have);
  f.lo = lo, f.hi = hi;
  const std::function<double(const S&, const S&)> d = [&](const S& x, const S& y) { return f.dist(x, y); };
  const std::function<S(const S&, const S&, const double)> ip = [&](const S& x, const S& y, const double t) { return f.interp(x, y, t); };
  const Path r = part ? path_utils::UpsamplePathPartial(p, lo, hi, num, d, ip) : path_utils::UpsamplePath(p, num, d, ip);
  VH_CHECK((long)r.size() == std::max(num, have), "the result has " << r.size() << " states");
  std::vector<long> cnt(n, 0);
  size_t i = 0;
  for (long k = lo; k + 1 < hi; k++) {
    VH_CHECK(i < r.size() && same(r[i], p[k]), "state " << k << " of the path is missing or out of order");
    size_t e = i + 1;
    while (e < r.size() && r[e].a != r[e].b) e++;
    cnt[k] = e - i;
    for (size_t q = i; q < e; q++) {
      S w = f.interp(p[k], p[k + 1], (double)(q - i) / (e - i));
      VH_CHECK(same(r[q], w), "state " << q << " is " << show(r[q]) << " instead of " << show(w));
    }
    i = e;
  }
  VH_CHECK(i + 1 == r.size() && same(r[i], p[hi - 1]), "the result does not end with the last state");
  for (long k = lo; k + 1 < hi; k++)
    for (long j = lo; j + 1 < hi; j++)
      if (cnt[k] >= 2)
        VH_CHECK(f.d[k] / (cnt[k] - 1) >= f.d[j] / cnt[j] * (1 - 1e-9),
                 "segment " << k << " of length " << f.d[k] << " is cut into " << cnt[k] << " pieces, segment " << j << " of length " << f.d[j] << " only into " << cnt[j]);
}

int main() {
  vh::init(3);
  // the warning about too many points is not of interest
  std::cerr.setstate(std::ios::failbit);
  vh::begin_section();
  while (vh::more()) shortcut();
  vh::begin_section();
  while (vh::more()) resample();
  vh::begin_section();
  while (vh::more()) upsample();
  return vh::done();
}

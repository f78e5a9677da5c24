// Projections, distances to lines, planes and sets, clamps and comparisons against direct evaluation in extended precision.
#include <arc_utilities/eigen_helpers.hpp>
#include "vh.hpp"
using namespace EigenHelpers;
typedef long double LD;
typedef Eigen::Vector3d V3;
typedef Eigen::VectorXd VX;
typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> LX;
static LX L(const VX& v) { return v.cast<LD>(); }
static bool near(LD a, LD b, LD scale, LD tol = 1e-11L) { return std::fabs(a - b) <= tol * (scale + 1e-30L) || a == b; }
static int style;
static double num() { switch (style) { case 0: return vh::R().in(-3, 3); case 1: return vh::R().real(-1, 1); case 2: return vh::R().real(-1e3, 1e3); default: return vh::R().coin(1, 3) ? 0.0 : vh::R().in(-64, 64) * 0.125; } }
static VX vec(int n) { VX r(n); for (int k = 0; k < n; k++) r[k] = num(); return r; }
static std::string str(const VX& v) { std::ostringstream s; s.precision(17); s << "[" << v.transpose() << "]"; return s.str(); }
static bool near(const VX& a, const LX& b, LD scale, LD tol = 1e-11L) { if (a.size() != b.size()) return false; for (int k = 0; k < a.size(); k++) if (!near(a[k], b[k], scale, tol)) return false; return true; }
static void vectors() {
  style = vh::R().in(0, 3);
  const int n = vh::R().in(1, 6);
  const VX b = vh::R().coin(1, 8) ? VX(VX::Zero(n)) : vec(n), v = vec(n);
  VX w(n);
  for (int k = 0; k < n; k++) w[k] = vh::R().coin(1, 5) ? 0.0 : std::abs(num());
  const double bound = vh::R().coin(1, 3) ? double(vh::R().in(1, 4)) : vh::R().real(1e-3, 10);
  vh::begin_case("vectors b " + str(b) + " v " + str(v) + " w " + str(w) + " bound " + vh::num(bound));
  const LX lb = L(b), lv = L(v);
  const LD bb = lb.dot(lb), bv = lb.dot(lv), vv = lv.dot(lv), sc = std::sqrt(vv) + 1e-3L;
  const LX pr = bb > 0 ? LX(lb * (bv / bb)) : LX(LX::Zero(n));
  VH_CHECK(near(VectorProjection(b, v), pr, sc), "projection " << str(VectorProjection(b, v)));
  VH_CHECK(near(VectorRejection(b, v), lv - pr, sc), "rejection " << str(VectorRejection(b, v)));
  const VX c = ClampNorm(v, bound);
  const LD nv = std::sqrt(vv);
  VH_CHECK(c.size() == n && c.norm() <= bound * (1 + 1e-12), "clamped norm " << c.norm());
  if (nv <= bound * (1 - 1e-12L)) VH_CHECK(c == v, "short vector changed by ClampNorm to " << str(c));
  if (nv > bound * (1 + 1e-12L)) VH_CHECK(near(c, lv * (bound / nv), bound), "clamped to " << str(c));
  VH_CHECK(near(SafeNormal(v), nv > 1e-15L ? LX(lv / nv) : lv, 1), "SafeNormal " << str(SafeNormal(v)));
  VH_CHECK(SafeNormal(VX(VX::Zero(n))) == VX::Zero(n), "SafeNormal of zero");
  const LX d = lv - lb;
  VH_CHECK(near(SquaredDistance(v, b), d.dot(d), d.dot(d)) && near(Distance(v, b), std::sqrt(d.dot(d)), std::sqrt(d.dot(d))), "distance " << Distance(v, b));
  LD wd = 0, wv = 0, wb = 0, mag = 0;
  for (int k = 0; k < n; k++) wd += lb[k] * w[k] * lv[k], mag += std::fabs(lb[k] * w[k] * lv[k]), wv += lv[k] * w[k] * lv[k], wb += lb[k] * w[k] * lb[k];
  VH_CHECK(near(WeightedDotProduct(b, v, w), wd, mag), "weighted dot product " << WeightedDotProduct(b, v, w));
  VH_CHECK(near(WeightedSquaredNorm(v, w), wv, wv) && near(WeightedNorm(v, w), std::sqrt(wv), std::sqrt(wv)), "weighted norm " << WeightedNorm(v, w));
  if (wv > 1e-12L && wb > 1e-12L) {
    const LD cs = std::max(-1.0L, std::min(1.0L, wd / std::sqrt(wv * wb)));
    const double got = WeightedCosineAngleBetweenVectors(b, v, w), ang = WeightedAngleBetweenVectors(b, v, w);
    VH_CHECK(got >= -1 && got <= 1 && near(got, cs, 1), "weighted cosine " << got << " for " << double(cs));
    VH_CHECK(ang >= 0 && std::fabs(std::cos((LD)ang) - cs) <= 1e-9L, "weighted angle " << ang);
  }
  // planes
  const Hyperplane h(b, w);
  const LX lw = L(w), off = lv - lb;
  const LD ww = lw.dot(lw), raw = off.dot(lw), oo = off.dot(off), s2 = std::sqrt(oo) + 1e-3L;
  VH_CHECK(h.GetDimensionality() == size_t(n) && h.GetOrigin() == b && h.GetNormal() == w, "origin or normal of the plane");
  VH_CHECK(near(h.GetRawDotProduct(v), raw, s2 * std::sqrt(ww)), "raw dot product " << h.GetRawDotProduct(v));
  VH_CHECK(near(h.GetNormedDotProduct(v), oo > 1e-28L ? raw / std::sqrt(oo) : raw, std::sqrt(ww)), "normed dot product " << h.GetNormedDotProduct(v));
  const LD dist = ww > 0 ? std::fabs(raw) / std::sqrt(ww) : 0;
  VH_CHECK(near(h.GetDistanceToPlane(v), dist, s2) && near(h.GetSquaredDistanceToPlane(v), dist * dist, s2 * s2), "distance to the plane " << h.GetDistanceToPlane(v) << " for " << double(dist));
  const LX pw = ww > 0 ? LX(lw * (lw.dot(lv) / ww)) : LX(LX::Zero(n)), po = ww > 0 ? LX(lw * (raw / ww)) : LX(LX::Zero(n));
  VH_CHECK(near(h.RejectVectorOntoPlane(v), pw, sc) && near(h.ProjectVectorOntoPlane(v), lv - pw, sc), "vector parts " << str(h.RejectVectorOntoPlane(v)) << str(h.ProjectVectorOntoPlane(v)));
  VH_CHECK(near(h.ProjectPointOntoPlane(v), lv - po, sc + s2), "point on the plane " << str(h.ProjectPointOntoPlane(v)));
}
static V3 three() { return V3(num(), num(), num()); }
static void space() {
  style = vh::R().in(0, 3);
  V3 p = three(), q = three(), x = three(), u = three();
  if (vh::R().coin(1, 8)) q = p * vh::R().in(-2, 2);
  if (vh::R().coin(1, 8)) x = p;
  if (vh::R().coin(1, 8)) x = p + u * vh::R().in(-3, 3);
  const double far = vh::R().coin(1, 3) ? vh::R().real(1e2, 1e5) : 0;
  vh::begin_case("space p " + str(p) + " q " + str(q) + " x " + str(x) + " u " + str(u) + " shift " + vh::num(far));
  const LX lp = L(p), lq = L(q), lx = L(x), lu = L(u);
  const LD up = lu.dot(lu);
  if (up > 0) {
    const V3 o(far, -far, far / 3), base = p + o, pt = vh::R().coin(1, 3) ? V3(base + (x - p) * 1e-4) : V3(x + o);
    const LX dl = L(pt) - L(base);
    const LD un = std::sqrt(up), s = lu.dot(dl) / un, dd = (dl - lu * (s / un)).norm(), sc = dl.norm();
    std::stringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    const auto r = DistanceToLine(base, vh::R().coin(1, 2) ? V3(u.normalized()) : u, pt);
    std::cerr.rdbuf(old);
    VH_CHECK(r.first >= 0 && near(r.first, dd, sc + dd, 1e-9L) && near(r.second, s, sc, 1e-9L), "distance to the line " << r.first << ", " << r.second << " for " << double(dd) << ", " << double(s));
  }
  const LD np = lp.norm(), nq = lq.norm();
  if (np > 0 && nq > 0) {
    const LD c = std::fabs(lp.dot(lq)) / (np * nq);
    bool threw = false;
    V3 r;
    try { r = VectorProjectionToPlane(p, q, x); } catch (const std::invalid_argument&) { threw = true; }
    if (std::fabs(c - 1) < 0.9e-10L) VH_CHECK(threw, "parallel vectors accepted as a plane");
    if (std::fabs(c - 1) > 1e-6L) {
      VH_CHECK(!threw, "plane rejected");
      Eigen::Matrix<LD, 3, 1> a = lp, b = lq, v = lx, nn = a.cross(b);
      nn.normalize();
      VH_CHECK(near(r, LX(v - nn * nn.dot(v)), lx.norm() + 1e-3L, 1e-9L), "projected to " << str(r));
    }
  }
  if (p != q && x != q) {
    const LX a = lp - lq, b = lx - lq;
    const LD c = std::max(-1.0L, std::min(1.0L, a.dot(b) / (a.norm() * b.norm())));
    std::stringstream quiet;
    std::streambuf* old = std::cerr.rdbuf(quiet.rdbuf());
    const double g = AngleDefinedByPoints(p, q, x);
    std::cerr.rdbuf(old);
    VH_CHECK(g >= 0 && g <= 3.1415926536 && std::fabs(std::cos((LD)g) - c) <= 1e-9L, "angle " << g);
  }
  VH_CHECK(Equal3d(p, x) == (p == x) && Equal3d(p, p), "Equal3d");
  for (int k = 0; k < 4; k++) { Eigen::Vector4d a = Eigen::Vector4d::Constant(num()), b = a; VH_CHECK(Equal4d(a, b), "Equal4d on equal vectors"); b[k] += 1; VH_CHECK(!Equal4d(a, b), "Equal4d ignores element " << k); }
  for (int k = 0; k < 3; k++) { V3 b = p; b[k] += 1; VH_CHECK(!Equal3d(p, b), "Equal3d ignores element " << k); }
  const double th = vh::R().in(-4, 4) * 0.5;
  bool c3 = true, c2 = true;
  for (int k = 0; k < 3; k++) { const bool ok = std::abs(p[k] - x[k]) <= std::abs(th); c3 = c3 && ok; if (k < 2) c2 = c2 && ok; }
  VH_CHECK(CloseEnough(p, x, th) == c3 && CloseEnough(Eigen::Vector2d(p[0], p[1]), Eigen::Vector2d(x[0], x[1]), th) == c2, "CloseEnough with threshold " << th);
  // cones
  if (up > 0) {
    V3 dir = u.normalized();
    switch (vh::R().in(0, 4)) { case 0: dir = V3(1, 1, 1).normalized(); break; case 1: dir = -V3(1, 1, 1).normalized(); break; case 2: dir = V3::Zero(); dir[vh::R().in(0, 2)] = vh::R().coin(1, 2) ? 1 : -1; break; default: break; }
    const double c = vh::R().real(0.05, 0.999);
    const auto n = ConvertConeToPyramid(dir, c);
    VH_CHECK(n.size() == 4, "pyramid of " << n.size() << " sides");
    for (int k = 0; k < 4; k++) {
      VH_CHECK(std::abs(n[k].norm() - 1) < 1e-9 && n[k].dot(dir) < 0, "normal " << k << " of the pyramid around " << str(dir) << " is " << str(n[k]));
      const V3 edge = n[k].cross(n[(k + 1) % 4]);     // common ray of two neighbouring sides
      V3 e = edge.normalized();
      if (e.dot(dir) < 0) e = -e;
      VH_CHECK(std::abs(e.dot(dir) - c) < 1e-6, "edge " << k << " of the pyramid is not on the cone: " << e.dot(dir) << " for " << c);
      VH_CHECK(std::abs(n[k].dot(dir) - n[0].dot(dir)) < 1e-6, "pyramid is not regular");
      for (int m = 0; m < 4; m++) VH_CHECK(n[m].dot(e) < 1e-6, "edge outside of side " << m);
    }
  }
}
template <typename M>
static void sets_of(const M& m, const M& o, const V3& p) {
  const int n = m.cols();
  const Eigen::MatrixXd sd = CalculateSquaredDistanceMatrix(m), dm = CalculateDistanceMatrix(m), b = SquaredDistancesBetweenPointSets(m, o);
  const VX st = CalculateSquaredDistanceToSet(m, p), dt = CalculateDistanceToSet(m, p);
  VH_CHECK(sd.rows() == n && sd.cols() == n && dm.rows() == n && dm.cols() == n && b.rows() == n && b.cols() == o.cols() && st.size() == n && dt.size() == n, "shape of the distances");
  LD best = -1;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      const LX d = L(VX(m.col(i))) - L(VX(m.col(j)));
      VH_CHECK(near(sd(i, j), d.dot(d), d.dot(d)) && near(dm(i, j), d.norm(), d.norm()), "distance of points " << i << " and " << j << ": " << sd(i, j));
    }
    for (int j = 0; j < o.cols(); j++) {
      const LX d = L(VX(m.col(i))) - L(VX(o.col(j)));
      VH_CHECK(near(b(i, j), d.dot(d), d.dot(d)), "distance of point " << i << " of A and " << j << " of B: " << b(i, j));
    }
    const LX d = L(VX(m.col(i))) - L(p);
    VH_CHECK(near(st[i], d.dot(d), d.dot(d)) && near(dt[i], d.norm(), d.norm()), "distance to point " << i << ": " << st[i]);
    if (best < 0 || d.dot(d) < best) best = d.dot(d);
  }
  const auto k = ClosestPointInSet(m, p);
  VH_CHECK(k >= 0 && k < n, "closest index " << k);
  const LX d = L(VX(m.col(k))) - L(p);
  VH_CHECK(d.dot(d) <= best * (1 + 1e-12L) + 1e-300L, "point " << k << " is not the closest");
}
static void sets() {
  style = vh::R().in(0, 3);
  const int n = vh::R().in(1, 7), w = vh::R().in(1, 5);
  Eigen::Matrix3Xd m(3, n), o(3, w);
  for (int k = 0; k < n; k++) m.col(k) = three();
  for (int k = 0; k < w; k++) o.col(k) = three();
  const V3 p = vh::R().coin(1, 4) ? V3(m.col(vh::R().in(0, n - 1))) : three();
  std::ostringstream t;
  t.precision(17);
  t << "points " << m.format(Eigen::IOFormat(17, 0, " ", ";")) << " others " << o.format(Eigen::IOFormat(17, 0, " ", ";")) << " from " << str(p);
  vh::begin_case(t.str(), n > 1);
  sets_of(m, o, p);
  VectorVector3d a, b;
  for (int k = 0; k < n; k++) a.push_back(m.col(k));
  b = a;
  VH_CHECK(CloseEnough(a, b, 0) && IsApprox(a, b), "equal sets of points are not close");
  const int k = vh::R().in(0, n - 1);
  b[k][vh::R().in(0, 2)] += 1.0;
  VH_CHECK(CloseEnough(a, b, 1.0 + 1e-9) && !CloseEnough(a, b, 0.9) && !IsApprox(a, b, 1e-7 / (1 + a[k].norm())), "sets of points that differ at " << k);
  b = a;
  b.pop_back();
  VH_CHECK(!CloseEnough(a, b, 1e9) && !CloseEnough(b, a, 1e9) && !IsApprox(a, b, 1e9) && !IsApprox(b, a, 1e9), "sets of different sizes are close");
  const Eigen::Quaterniond q(Eigen::AngleAxisd(vh::R().real(-3, 3), V3(1, vh::R().real(-1, 1), 2).normalized()));
  Eigen::Isometry3d T = Eigen::Translation3d(three()) * q;
  const auto tr = TransformData(T, a);
  VH_CHECK(tr.size() == a.size(), "transformed " << tr.size());
  for (int i = 0; i < n; i++) VH_CHECK(near(tr[i], L(T.linear() * a[i] + T.translation()), a[i].norm() + T.translation().norm()), "transformed point " << i);
  const V3 ax = T.linear() * p, bx = T.linear().transpose() * p;
  VH_CHECK(near(RotateVector(q, p), L(ax), p.norm() + 1e-6) && near(RotateVectorReverse(q, p), L(bx), p.norm() + 1e-6), "rotated vector " << str(RotateVector(q, p)));
  if (n >= 3) {      // best plane: no other direction has a smaller sum of squared distances
    std::vector<VX> pts;
    for (const auto& x : a) pts.push_back(x);
    const Hyperplane h = FitPlaneToPoints(pts);
    const V3 mean = m.rowwise().mean();
    VH_CHECK(near(h.GetOrigin(), L(mean), m.norm() + 1e-6) && std::abs(h.GetNormal().norm() - 1) < 1e-9, "origin or normal of the fitted plane");
    auto cost = [&](const V3& d) { double c = 0; for (const auto& x : a) { const double e = d.dot(x - mean); c += e * e; } return c; };
    const double c = cost(h.GetNormal());
    for (int t2 = 0; t2 < 12; t2++) { const V3 d = V3(vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(-1, 1) + 1e-3).normalized(); VH_CHECK(c <= cost(d) + 1e-9 * (1 + m.squaredNorm()), "the plane across " << str(d) << " fits better"); }
  }
}
int main() {
  vh::init(3);
  vh::begin_section();
  while (vh::more()) vectors();
  vh::begin_section();
  while (vh::more()) space();
  vh::begin_section();
  while (vh::more()) sets();
  return vh::done();
}

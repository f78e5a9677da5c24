// Grid neighbours against a direct enumeration: which candidates are returned, in which order, and what the callbacks are asked.
#include <Eigen/Dense>
#include <arc_utilities/get_neighbours.hpp>
#include "vh.hpp"
template <int D> struct Run;
template <> struct Run<2> {
  typedef Eigen::Vector2d T;
  static std::vector<T> go(const T& c, const double* lo, const double* hi, double s, const std::function<T(const T&)>& r, const std::function<bool(const T&)>& v) { return arc_utilities::GetNeighbours::TwoDimensional8Connected<T, double>(c, lo[0], hi[0], lo[1], hi[1], s, r, v); }
};
template <> struct Run<3> {
  typedef Eigen::Vector3d T;
  static std::vector<T> go(const T& c, const double* lo, const double* hi, double s, const std::function<T(const T&)>& r, const std::function<bool(const T&)>& v) { return arc_utilities::GetNeighbours::ThreeDimensional8Connected<T, double>(c, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], s, r, v); }
};
template <int D>
void one() {
  typedef typename Run<D>::T T;
  const double step = vh::R().in(1, 8) * 0.25;
  double lo[3], hi[3];
  T c;
  std::ostringstream d;
  const int mode = vh::R().in(0, 3);   // identity, grid of the step size, finer grid, coarse grid
  d << D << "D step " << step << " rounding " << mode;
  for (int k = 0; k < D; k++) {
    lo[k] = vh::R().in(-4, 0) * step;
    hi[k] = lo[k] + vh::R().in(0, 5) * step;
    c[k] = vh::R().coin(3, 4) ? lo[k] + step * vh::R().in(0, int((hi[k] - lo[k]) / step)) : vh::R().in(-20, 20) * 0.125;
    if (vh::R().coin(1, 8)) hi[k] += 0.125;
    d << " [" << lo[k] << "," << hi[k] << "] at " << c[k];
  }
  const uint64_t salt = vh::R().coin() ? 0 : vh::R().u64();
  d << " validity " << salt;
  vh::begin_case(d.str(), true);
  auto rnd = [&](T v) { if (mode) for (int k = 0; k < D; k++) { const double g = mode == 1 ? step : mode == 2 ? step / 4 : step * 2; v[k] = std::round(v[k] / g) * g; } return v; };
  auto val = [&](const T& v) { if (!salt) return true; uint64_t x = salt; for (int k = 0; k < D; k++) x = (x ^ uint64_t(int64_t(v[k] * 64))) * 0x9E3779B97F4A7C15ull, x ^= x >> 29; return (x & 1) == 0; };
  const auto got = Run<D>::go(c, lo, hi, step, std::function<T(const T&)>(rnd), std::function<bool(const T&)>(val));
  std::vector<T> want;
  T a, b;
  for (int k = 0; k < D; k++) a[k] = std::max(lo[k], c[k] - step), b[k] = std::min(hi[k], c[k] + step);
  a = rnd(a), b = rnd(b);
  const int n = D == 2 ? 9 : 27;
  for (int t = 0; t < n; t++) {
    T p;
    for (int k = D - 1, u = t; k >= 0; k--, u /= 3) p[k] = c[k] + step * (u % 3 - 1);
    p = rnd(p);
    bool ok = p != c && val(p);
    for (int k = 0; k < D; k++) ok = ok && a[k] <= p[k] && p[k] <= b[k];
    if (ok) want.push_back(p);
  }
  VH_CHECK(got.size() == want.size(), got.size() << " neighbours, expected " << want.size());
  for (size_t i = 0; i < got.size() && i < want.size(); i++) VH_CHECK(got[i] == want[i], "neighbour " << i << " is " << got[i].transpose() << ", expected " << want[i].transpose());
}
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) { if (vh::R().coin()) one<2>(); else one<3>(); }
  return vh::done();
}

// Conversions between std::vector and Eigen values, element by element, for several scalar types and block lengths.
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/eigen_std_conversions.hpp>
#include "vh.hpp"
using namespace EigenHelpers;
template <typename T> static T num() { static double x = 0; x += 1; return T(vh::R().coin(1, 2) ? x : vh::R().in(-1000, 1000) * 0.25); }
template <typename T> static std::string str(const T& v) { std::ostringstream s; s.precision(17); s << "["; for (size_t k = 0; k < size_t(v.size()); k++) s << (k ? " " : "") << v[k]; s << "]"; return s.str(); }
template <typename A, typename B> static bool same(const A& a, const B& b) { if (size_t(a.size()) != size_t(b.size())) return false; for (size_t k = 0; k < size_t(a.size()); k++) if (!(a[k] == b[k])) return false; return true; }
template <typename T> static void any(int n) {
  std::vector<T> v(n);
  for (auto& x : v) x = num<T>();
  Eigen::Matrix<T, Eigen::Dynamic, 1> e(n);
  for (int k = 0; k < n; k++) e[k] = v[k];
  vh::begin_case(std::string("any length ") + typeid(T).name() + " " + str(v), n > 1);
  const auto to = StdVectorToEigenVectorX(v);
  const auto back = EigenVectorXToStdVector(e);
  VH_CHECK(same(to, v), "StdVectorToEigenVectorX gives " << str(to));
  VH_CHECK(same(back, v), "EigenVectorXToStdVector gives " << str(back));
}
template <typename T, int L> static void blocks(int n) {
  std::vector<T> v(n * L);
  for (auto& x : v) x = num<T>();
  vh::begin_case("blocks of " + std::to_string(L) + typeid(T).name() + " " + str(v), n > 1);
  const auto bl = StdVectorXToVectorEigenVector<T, L>(v);
  bool ok = bl.size() == size_t(n);
  for (int b = 0; ok && b < n; b++) for (int d = 0; d < L; d++) ok = ok && bl[b](d) == v[b * L + d];
  VH_CHECK(ok, "StdVectorXToVectorEigenVector: " << bl.size() << " blocks, elements not in order");
  if (!ok || !n) return;
  const auto flat = VectorEigenVectorToEigenVectorX(bl);
  VH_CHECK(same(flat, v), "VectorEigenVectorToEigenVectorX gives " << str(flat));
}
template <int L> static void split(int n) {
  Eigen::VectorXd e(n * L);
  for (int k = 0; k < n * L; k++) e[k] = num<double>();
  vh::begin_case("split into " + std::to_string(L) + " " + str(e), n > 1);
  const auto bl = EigenVectorXToVectorEigenVector<double, L>(e);
  bool ok = bl.size() == size_t(n);
  for (int b = 0; ok && b < n; b++) for (int d = 0; d < L; d++) ok = ok && bl[b](d) == e[b * L + d];
  VH_CHECK(ok, "EigenVectorXToVectorEigenVector: " << bl.size() << " blocks, elements not in order");
}
static void plain(int n) {
  std::vector<double> v(n);
  for (auto& x : v) x = num<double>();
  vh::begin_case("plain " + str(v), n > 1);
  const Eigen::VectorXd e = StdVectorDoubleToEigenVectorXd(v);
  VH_CHECK(same(e, v), "StdVectorDoubleToEigenVectorXd gives " << str(e));
  VH_CHECK(same(EigenVectorXdToStdVectorDouble(e), v), "EigenVectorXdToStdVectorDouble gives " << str(EigenVectorXdToStdVectorDouble(e)));
  VH_CHECK(same(ConvertTo<std::vector<double>>(e), v), "ConvertTo gives " << str(ConvertTo<std::vector<double>>(e)));
  std::vector<double> w(4);
  for (auto& x : w) x = num<double>();
  const Eigen::Quaterniond q = StdVectorDoubleToEigenQuaterniond(w);
  VH_CHECK(q.x() == w[0] && q.y() == w[1] && q.z() == w[2] && q.w() == w[3], "quaternion " << q.coeffs().transpose() << " from " << str(w));
  VH_CHECK(same(EigenQuaterniondToStdVectorDouble(q), w), "from the quaternion " << str(EigenQuaterniondToStdVectorDouble(q)) << " for " << str(w));
  w.pop_back();
  const Eigen::Vector3d p = StdVectorDoubleToEigenVector3d(w);
  VH_CHECK(same(p, w) && same(EigenVector3dToStdVectorDouble(p), w), "Vector3d " << p.transpose() << " from " << str(w));
}
int main() {
  vh::init(4);
  vh::begin_section();
  while (vh::more()) plain(vh::R().in(0, vh::R().coin(1, 10) ? 200 : 9));
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().in(0, vh::R().coin(1, 10) ? 200 : 9);
    switch (vh::R().in(0, 3)) { case 0: any<double>(n); break; case 1: any<float>(n); break; case 2: any<int>(n); break; default: any<uint8_t>(n); }
  }
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().in(0, vh::R().coin(1, 10) ? 60 : 7);
    switch (vh::R().in(0, 4)) { case 0: blocks<double, 3>(n); break; case 1: blocks<float, 3>(n); break; case 2: blocks<double, 2>(n); break; case 3: blocks<int, 1>(n); break; default: blocks<double, 7>(n); }
  }
  vh::begin_section();
  while (vh::more()) {
    const int n = vh::R().in(0, vh::R().coin(1, 10) ? 60 : 7);
    switch (vh::R().in(0, 3)) { case 0: split<3>(n); break; case 1: split<2>(n); break; case 2: split<1>(n); break; default: split<7>(n); }
  }
  return vh::done();
}

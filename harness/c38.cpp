// Round trips and byte layout of serialized Eigen values.
#include <cassert>
#include <arc_utilities/serialization_eigen.hpp>
#include "vh.hpp"
using namespace arc_utilities;
typedef std::vector<uint8_t> B;
static B noise() { B b; for (int n = vh::R().in(0, 12); n > 0; n--) b.push_back(vh::R().in(0, 255)); return b; }
template <typename T> bool same(const T& a, const T& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(*a.data()) * a.size()) == 0); }
inline bool same(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b) { return same(a.matrix(), b.matrix()); }
template <typename S> void header(B& w, S n) { const uint64_t x = n; for (int k = 0; k < 8; k++) w.push_back(x >> (8 * k)); }
template <typename M> B expected(const M& m) {
  B w;
  if (M::RowsAtCompileTime == Eigen::Dynamic) header(w, m.rows());
  if (M::ColsAtCompileTime == Eigen::Dynamic) header(w, m.cols());
  for (long c = 0; c < m.cols(); c++)
    for (long r = 0; r < m.rows(); r++) {
      const auto v = m(r, c);
      const uint8_t* p = reinterpret_cast<const uint8_t*>(&v);
      w.insert(w.end(), p, p + sizeof v);
    }
  return w;
}
inline B expected(const Eigen::Isometry3d& t) { return expected(Eigen::Matrix4d(t.matrix())); }

template <typename T> void round(const char* what, const T& x, long rows, long cols) {
  const B pre = noise(), w = expected(x);
  B b = pre;
  std::ostringstream o;
  o << what << " " << rows << "x" << cols << " behind " << pre.size() << " bytes: " << vh::hex(B(w.begin(), w.begin() + std::min<size_t>(w.size(), 600)));
  vh::begin_case(o.str(), rows * cols > 0);
  VH_CHECK(SerializedSizeEigen(x) == w.size(), "the size is " << w.size() << " bytes, not " << SerializedSizeEigen(x));
  const uint64_t n = SerializeEigen<>(x, b);
  VH_CHECK(n == w.size() && b.size() == pre.size() + n, "reports " << n << " bytes, appends " << b.size() - pre.size() << ", has " << w.size());
  VH_CHECK(std::equal(pre.begin(), pre.end(), b.begin()), "changes the bytes before it");
  VH_CHECK(std::equal(w.begin(), w.end(), b.begin() + pre.size()), "layout of the encoding");
  const B suf = noise();
  b.insert(b.end(), suf.begin(), suf.end());
  const std::pair<T, uint64_t> r = DeserializeEigen<T>(b, pre.size());
  VH_CHECK(r.second == n, "reads " << r.second << " bytes of " << n);
  VH_CHECK(same(r.first, x), "does not return what was serialized");
}
static long dim() { return vh::R().coin(1, 30) ? vh::R().in(20, 300) : vh::R().in(0, 5); }
template <typename M> void matrix(const char* what) {
  const long r = M::RowsAtCompileTime == Eigen::Dynamic ? dim() : M::RowsAtCompileTime, c = M::ColsAtCompileTime == Eigen::Dynamic ? dim() : M::ColsAtCompileTime;
  M m = M::Zero(r, c);
  for (long i = 0; i < r; i++)
    for (long j = 0; j < c; j++) m(i, j) = vh::R().coin(1, 20) ? -0.0 : vh::R().coin(1, 20) ? INFINITY : vh::R().coin(1, 20) ? NAN : vh::R().real(-1e3, 1e3);
  round<M>(what, m, r, c);
}

int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    matrix<Eigen::Vector3d>("Vector3d");
    matrix<Eigen::Matrix<double, 6, 1>>("Vector6d");
    matrix<Eigen::Matrix<double, 7, 1>>("Vector7d");
    matrix<Eigen::VectorXd>("VectorXd");
    matrix<Eigen::MatrixXd>("MatrixXd");
    matrix<Eigen::Matrix3Xd>("Matrix3Xd");
    matrix<Eigen::Matrix3Xf>("Matrix3Xf");
    matrix<Eigen::MatrixXf>("MatrixXf");
    Eigen::Isometry3d t;
    for (int i = 0; i < 16; i++) t.matrix()(i / 4, i % 4) = i < 12 ? vh::R().real(-9, 9) : i == 15;
    round<Eigen::Isometry3d>("Isometry3d", t, 4, 4);
  }
  return vh::done();
}

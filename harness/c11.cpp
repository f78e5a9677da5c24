// Voxel grid: construction, index-based reads and writes, resets, whole-grid data; against a map of cells.
#include <arc_utilities/voxel_grid.hpp>
#include "vh.hpp"
struct T { long id; bool operator==(const T& o) const { return id == o.id; } };
typedef VoxelGrid::VoxelGrid<T> G;
typedef VoxelGrid::GRID_INDEX I;
static Eigen::Isometry3d rigid() {
  Eigen::Quaterniond q(vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(0.1, 1));
  q.normalize();
  return Eigen::Translation3d(vh::R().real(-3, 3), vh::R().real(-3, 3), vh::R().real(-3, 3)) * q;
}
struct Model {
  long n[3];
  double s[3];
  std::vector<T> d;
  T def, oob;
  Eigen::Isometry3d o;
  long at(long x, long y, long z) const { return (x * n[1] + y) * n[2] + z; }
  bool in(long x, long y, long z) const { return x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2]; }
};
static void compare(const G& g, const Model& m, const char* when) {
  VH_CHECK(g.GetNumXCells() == m.n[0] && g.GetNumYCells() == m.n[1] && g.GetNumZCells() == m.n[2], when << ": cell counts " << g.GetNumXCells() << "," << g.GetNumYCells() << "," << g.GetNumZCells());
  VH_CHECK(g.IsInitialized(), when << ": not initialized");
  const Eigen::Vector3d c = g.GetCellSizes();
  VH_CHECK(c(0) == m.s[0] && c(1) == m.s[1] && c(2) == m.s[2], when << ": cell sizes");
  VH_CHECK(std::abs(g.GetXSize() - m.n[0] * m.s[0]) < 1e-9 && std::abs(g.GetYSize() - m.n[1] * m.s[1]) < 1e-9 && std::abs(g.GetZSize() - m.n[2] * m.s[2]) < 1e-9, when << ": grid sizes");
  VH_CHECK(g.GetDefaultValue() == m.def, when << ": default value " << g.GetDefaultValue().id << ", expected " << m.def.id);
  VH_CHECK(g.GetOOBValue() == m.oob, when << ": out-of-bounds value " << g.GetOOBValue().id << ", expected " << m.oob.id);
  VH_CHECK((g.GetOriginTransform().matrix() - m.o.matrix()).norm() < 1e-9, when << ": origin transform");
  VH_CHECK((g.GetInverseOriginTransform().matrix() - m.o.inverse().matrix()).norm() < 1e-9, when << ": inverse origin transform");
  VH_CHECK(g.GetImmutableRawData().size() == m.d.size(), when << ": raw data size " << g.GetImmutableRawData().size());
  std::set<uint64_t> seen;
  for (long x = -1; x <= m.n[0]; x++)
    for (long y = -1; y <= m.n[1]; y++)
      for (long z = -1; z <= m.n[2]; z++) {
        const bool in = m.in(x, y, z);
        const T want = in ? m.d[m.at(x, y, z)] : m.oob;
        VH_CHECK(g.IndexInBounds(x, y, z) == in && g.IndexInBounds(I(x, y, z)) == in, when << ": bounds of " << x << "," << y << "," << z);
        const std::pair<const T&, bool> a = g.GetImmutable(x, y, z), b = g.GetImmutable(I(x, y, z));
        VH_CHECK(a.second == in && b.second == in, when << ": flag at " << x << "," << y << "," << z);
        VH_CHECK(a.first == want && b.first == want, when << ": value at " << x << "," << y << "," << z << " is " << a.first.id << "/" << b.first.id << ", expected " << want.id);
        if (in) {
          const uint64_t h = g.HashDataIndex(x, y, z);
          VH_CHECK(h < m.d.size() && seen.insert(h).second, when << ": address of " << x << "," << y << "," << z << " out of range or shared");
        }
      }
}
int main() {
  vh::init();
  vh::begin_section();
  const T D{1000001}, O{1000002};
  const double bad[] = {0.0, -1.0, std::nan(""), INFINITY, -INFINITY};
  while (vh::more()) {
    Model m;
    m.def = D;
    const bool by_size = vh::R().coin(), own = vh::R().coin(), iso = vh::R().coin(), direct = vh::R().coin(), cube = vh::R().coin(1, 3);
    for (int i = 0; i < 3; i++) { m.n[i] = vh::R().in(1, vh::R().coin(1, 20) ? 9 : 4); m.s[i] = vh::R().in(1, 8) / 4.0; }
    if (cube) m.s[1] = m.s[2] = m.s[0];
    m.oob = own ? O : D;
    m.o = iso ? rigid() : Eigen::Isometry3d(Eigen::Translation3d(-m.n[0] * m.s[0] / 2, -m.n[1] * m.s[1] / 2, -m.n[2] * m.s[2] / 2));
    double len[3];
    for (int i = 0; i < 3; i++) len[i] = m.s[i] * (m.n[i] - (vh::R().coin() ? 0 : vh::R().in(0, 3) / 4.0));
    for (int i = 0; i < 3; i++) if (len[i] <= 0) len[i] = m.s[i];
    std::ostringstream o;
    const int wrong = vh::R().coin(1, 6) ? static_cast<int>(vh::R().in(0, 5)) : -1;
    const double bv = bad[vh::R().in(0, 4)];
    o << "grid " << m.n[0] << "x" << m.n[1] << "x" << m.n[2] << " cells of " << m.s[0] << "," << m.s[1] << "," << m.s[2] << (by_size ? " by size " : " by count ") << len[0] << "," << len[1] << "," << len[2] << (iso ? " iso" : " centred")
      << (own ? " own oob" : "") << (cube ? " cube" : "") << (direct ? " ctor" : " Initialize") << " bad argument " << wrong << "=" << bv << "; ops";
    vh::begin_case(o.str());
    double s[3] = {m.s[0], m.s[1], m.s[2]};
    int64_t n[3] = {m.n[0], m.n[1], m.n[2]};
    if (wrong >= 0 && wrong < 3) s[wrong] = bv;
    if (wrong >= 3) { if (by_size) len[wrong - 3] = bv; else n[wrong - 3] = -vh::R().in(0, 2); }
    const bool one = cube && wrong < 0;
    G g;
    VH_CHECK(!g.IsInitialized(), "a default grid is initialized");
    const auto build = [&]() {
      if (!direct) {
        if (iso && by_size) g.Initialize(m.o, s[0], s[1], s[2], len[0], len[1], len[2], m.def, m.oob);
        else if (iso) g.Initialize(m.o, s[0], s[1], s[2], n[0], n[1], n[2], m.def, m.oob);
        else if (by_size) g.Initialize(s[0], s[1], s[2], len[0], len[1], len[2], m.def, m.oob);
        else g.Initialize(s[0], s[1], s[2], n[0], n[1], n[2], m.def, m.oob);
      } else if (iso && by_size) {
        g = one ? own ? G(m.o, s[0], len[0], len[1], len[2], m.def, m.oob) : G(m.o, s[0], len[0], len[1], len[2], m.def)
                : own ? G(m.o, s[0], s[1], s[2], len[0], len[1], len[2], m.def, m.oob) : G(m.o, s[0], s[1], s[2], len[0], len[1], len[2], m.def);
      } else if (iso) {
        g = one ? own ? G(m.o, s[0], n[0], n[1], n[2], m.def, m.oob) : G(m.o, s[0], n[0], n[1], n[2], m.def)
                : own ? G(m.o, s[0], s[1], s[2], n[0], n[1], n[2], m.def, m.oob) : G(m.o, s[0], s[1], s[2], n[0], n[1], n[2], m.def);
      } else if (by_size) {
        g = one ? own ? G(s[0], len[0], len[1], len[2], m.def, m.oob) : G(s[0], len[0], len[1], len[2], m.def)
                : own ? G(s[0], s[1], s[2], len[0], len[1], len[2], m.def, m.oob) : G(s[0], s[1], s[2], len[0], len[1], len[2], m.def);
      } else {
        g = one ? own ? G(s[0], n[0], n[1], n[2], m.def, m.oob) : G(s[0], n[0], n[1], n[2], m.def)
                : own ? G(s[0], s[1], s[2], n[0], n[1], n[2], m.def, m.oob) : G(s[0], s[1], s[2], n[0], n[1], n[2], m.def);
      }
    };
    if (wrong >= 0) { VH_CHECK(vh::throws(build), "an illegal size is accepted"); continue; }
    build();
    m.d.assign(m.n[0] * m.n[1] * m.n[2], m.def);
    compare(g, m, "after construction");
    long next = 1;
    for (int k = 0; k < 12; k++) {
      const int op = static_cast<int>(vh::R().in(0, 11));
      const long x = vh::R().in(-1, m.n[0]), y = vh::R().in(-1, m.n[1]), z = vh::R().in(-1, m.n[2]);
      const T v{next++};
      const bool in = m.in(x, y, z);
      o << " " << op << "(" << x << "," << y << "," << z << ")";
      vh::begin_case(o.str());
      bool r = in;
      if (op == 0) r = g.SetValue(x, y, z, v);
      else if (op == 1) r = g.SetValue(I(x, y, z), v);
      else if (op == 2) { T w = v; r = g.SetValue(x, y, z, std::move(w)); }
      else if (op == 3) { T w = v; r = g.SetValue(I(x, y, z), std::move(w)); }
      else if (op == 4 || op == 5) {
        std::pair<T&, bool> p = op == 4 ? g.GetMutable(x, y, z) : g.GetMutable(I(x, y, z));
        VH_CHECK(p.second == in && p.first == (in ? m.d[m.at(x, y, z)] : m.oob), "mutable access");
        if (in) p.first = v;
      } else if (op == 6) { g.ResetWithDefault(); m.d.assign(m.d.size(), m.def); }
      else if (op == 7) { g.ResetWithNewValue(v); m.d.assign(m.d.size(), v); }
      else if (op == 8) { g.ResetWithNewDefault(v); m.def = v; m.d.assign(m.d.size(), v); }
      else if (op == 9) {
        std::vector<T> raw(m.d.size() + (vh::R().coin(1, 4) ? vh::R().in(-1, 1) : 0));
        for (T& t : raw) t = T{next++};
        const bool ok = g.SetRawData(raw);
        VH_CHECK(ok == (raw.size() == m.d.size()), "raw data of " << raw.size() << " cells for " << m.d.size());
        if (ok) m.d = raw;
      } else if (op == 10) { g.SetDefaultValue(v); m.def = v; }
      else { g.SetOOBValue(v); m.oob = v; }
      if (op <= 3) VH_CHECK(r == in, "write reported " << r);
      if (op <= 5 && in) m.d[m.at(x, y, z)] = v;
      if (op == 11 && vh::R().coin()) { std::unique_ptr<G> c(g.Clone()); compare(*c, m, "clone"); }
      compare(g, m, "after an operation");
    }
  }
  return vh::done();
}

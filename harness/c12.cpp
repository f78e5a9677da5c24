// Voxel grid: which cell a location lies in, where a cell lies, and reads and writes by location.
#include <arc_utilities/voxel_grid.hpp>
#include "vh.hpp"
typedef VoxelGrid::VoxelGrid<long> G;
typedef VoxelGrid::GRID_INDEX I;
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    long n[3];
    double s[3];
    for (int i = 0; i < 3; i++) { n[i] = vh::R().in(1, 6); s[i] = vh::R().in(1, 8) / 4.0 * (vh::R().coin(1, 4) ? 0.01 : 1); }
    Eigen::Quaterniond q(vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(0.1, 1));
    q.normalize();
    const bool plain = vh::R().coin(1, 3);
    Eigen::Isometry3d o = Eigen::Translation3d(vh::R().real(-3, 3), vh::R().real(-3, 3), vh::R().real(-3, 3)) * (plain ? Eigen::Quaterniond::Identity() : q);
    std::ostringstream d;
    d.precision(17);
    d << "grid " << n[0] << "x" << n[1] << "x" << n[2] << " cells of " << s[0] << "," << s[1] << "," << s[2] << " origin " << o.matrix().row(0) << " / " << o.matrix().row(1) << " / " << o.matrix().row(2);
    G g(Eigen::Isometry3d::Identity(), s[0], s[1], s[2], (int64_t)n[0], (int64_t)n[1], (int64_t)n[2], 0L, -1L);
    if (vh::R().coin()) g.UpdateOriginTransform(o);
    else g.Initialize(o, s[0], s[1], s[2], (int64_t)n[0], (int64_t)n[1], (int64_t)n[2], 0L, -1L);
    std::map<std::vector<long>, long> model;
    long next = 1;
    for (int k = 0; k < 24; k++) {
      // the grid moves: only its position, only its orientation, or both
      if (vh::R().coin(1, 8)) {
        const int how = static_cast<int>(vh::R().in(0, 2));
        if (how != 1) o.translation() = Eigen::Vector3d(vh::R().real(-3, 3), vh::R().real(-3, 3), vh::R().real(-3, 3));
        if (how != 0) o.linear() = Eigen::Quaterniond(Eigen::AngleAxisd(vh::R().real(-3, 3), Eigen::Vector3d::Random().normalized())).toRotationMatrix();
        g.UpdateOriginTransform(o);
        d << " moved to " << o.matrix().row(0) << " / " << o.matrix().row(1) << " / " << o.matrix().row(2);
      }
      long c[3];
      double f[3];
      for (int i = 0; i < 3; i++) {
        c[i] = vh::R().coin(1, 2) ? vh::R().in(0, n[i] - 1) : vh::R().in(-2, n[i] + 1);
        f[i] = vh::R().coin(1, 2) ? 0.5 : vh::R().real(1e-3, 1 - 1e-3);
      }
      const Eigen::Vector4d in_frame((c[0] + f[0]) * s[0], (c[1] + f[1]) * s[1], (c[2] + f[2]) * s[2], 1.0);
      const Eigen::Vector4d p = o.matrix() * in_frame;
      std::ostringstream e;
      e.precision(17);
      e << d.str() << " point " << p.transpose() << " in cell " << c[0] << "," << c[1] << "," << c[2] << " step " << k;
      vh::begin_case(e.str());
      const I want(c[0], c[1], c[2]);
      const Eigen::Vector3d p3 = p.head<3>(), f3 = in_frame.head<3>();
      const auto idx = [](const I& i) { std::ostringstream t; t << i.x << "," << i.y << "," << i.z; return t.str(); };
#define SAME(x) do { const I got = x; VH_CHECK(got == want, #x " gives " << idx(got)); } while (0)
      SAME(g.PointInFrameToGridIndex(f3(0), f3(1), f3(2)));
      SAME(g.PointInFrameToGridIndex3d(f3));
      SAME(g.PointInFrameToGridIndex4d(in_frame));
      SAME(g.LocationToGridIndex(p(0), p(1), p(2)));
      SAME(g.LocationToGridIndex3d(p3));
      SAME(g.LocationToGridIndex4d(p));
      const Eigen::Vector4d mid((c[0] + 0.5) * s[0], (c[1] + 0.5) * s[1], (c[2] + 0.5) * s[2], 1.0);
      VH_CHECK((g.GridIndexToLocationGridFrame(want) - mid).norm() < 1e-9 && (g.GridIndexToLocationGridFrame(c[0], c[1], c[2]) - mid).norm() < 1e-9, "middle of the cell in the grid frame");
      VH_CHECK((g.GridIndexToLocation(want) - o.matrix() * mid).norm() < 1e-9 && (g.GridIndexToLocation(c[0], c[1], c[2]) - o.matrix() * mid).norm() < 1e-9, "middle of the cell");
      SAME(g.LocationToGridIndex4d(g.GridIndexToLocation(want)));
      bool in = true;
      for (int i = 0; i < 3; i++) in = in && c[i] >= 0 && c[i] < n[i];
      VH_CHECK(g.LocationInBounds(p(0), p(1), p(2)) == in && g.LocationInBounds3d(p3) == in && g.LocationInBounds4d(p) == in, "bounds");
      const std::vector<long> key = {c[0], c[1], c[2]};
      const long v = next++;
      const int op = static_cast<int>(vh::R().in(0, 8));
      long tmp = v;
      bool ok = in;
      if (op == 0) ok = g.SetValue3d(p3, v);
      else if (op == 1) ok = g.SetValue4d(p, v);
      else if (op == 2) ok = g.SetValue(p(0), p(1), p(2), v);
      else if (op == 3) ok = g.SetValue3d(p3, std::move(tmp));
      else if (op == 4) ok = g.SetValue4d(p, std::move(tmp));
      else if (op == 5) ok = g.SetValue(p(0), p(1), p(2), std::move(tmp));
      else {
        std::pair<long&, bool> r = op == 6 ? g.GetMutable3d(p3) : op == 7 ? g.GetMutable4d(p) : g.GetMutable(p(0), p(1), p(2));
        ok = r.second;
        VH_CHECK(r.first == (in ? model.count(key) ? model[key] : 0 : -1), "mutable value " << r.first);
        if (in) r.first = v;
      }
      VH_CHECK(ok == in, "operation " << op << " reports " << ok);
      if (in) model[key] = v;
      const long e2 = in ? v : -1;
      VH_CHECK(g.GetImmutable3d(p3).first == e2 && g.GetImmutable4d(p).first == e2 && g.GetImmutable(p(0), p(1), p(2)).first == e2, "value after operation " << op);
      VH_CHECK(g.GetImmutable3d(p3).second == in && g.GetImmutable4d(p).second == in && g.GetImmutable(p(0), p(1), p(2)).second == in, "flag after operation " << op);
      for (long x = 0; x < n[0]; x++)
        for (long y = 0; y < n[1]; y++)
          for (long z = 0; z < n[2]; z++) {
            const std::vector<long> kk = {x, y, z};
            VH_CHECK(g.GetImmutable(I(x, y, z)).first == (model.count(kk) ? model[kk] : 0), "cell " << x << "," << y << "," << z << " after operation " << op);
          }
      VH_CHECK(g.GetOOBValue() == -1, "out-of-bounds value");
    }
  }
  return vh::done();
}

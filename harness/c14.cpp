// Dynamic hashed voxel grid against a sparse model of chunks and cells.
#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include "vh.hpp"
typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<long> G;
using namespace VoxelGrid;
typedef std::vector<long> K;
struct Chunk { bool cells; long whole; std::map<K, long> c; };
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    int64_t n[3];
    double s[3];
    const bool cube = vh::R().coin(1, 3), plain = vh::R().coin(1, 3), direct = vh::R().coin();
    for (int i = 0; i < 3; i++) { n[i] = vh::R().in(1, 4); s[i] = vh::R().in(1, 8) / 4.0; }
    if (cube) s[1] = s[2] = s[0];
    Eigen::Quaterniond q(vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(0.1, 1));
    q.normalize();
    const Eigen::Isometry3d o = plain ? Eigen::Isometry3d::Identity() : Eigen::Isometry3d(Eigen::Translation3d(vh::R().real(-3, 3), vh::R().real(-3, 3), vh::R().real(-3, 3)) * q);
    std::ostringstream d;
    d.precision(17);
    d << "chunks of " << n[0] << "x" << n[1] << "x" << n[2] << " cells of " << s[0] << "," << s[1] << "," << s[2] << " origin " << o.matrix().row(0) << " / " << o.matrix().row(1) << " / " << o.matrix().row(2) << "; ops";
    vh::begin_case(d.str());
    long def = -7;
    G g;
    VH_CHECK(!g.IsInitialized(), "a default grid is initialized");
    if (vh::R().coin(1, 8)) {
      double t[3] = {s[0], s[1], s[2]};
      int64_t m[3] = {n[0], n[1], n[2]};
      const double bad[] = {0.0, -1.0, std::nan(""), INFINITY, -INFINITY};
      const int w = static_cast<int>(vh::R().in(0, 5));
      if (w < 3) t[w] = bad[vh::R().in(0, 4)]; else m[w - 3] = -vh::R().in(0, 2);
      VH_CHECK(vh::throws([&]() { if (plain) g.Initialize(t[0], t[1], t[2], m[0], m[1], m[2], def); else g = G(o, t[0], t[1], t[2], m[0], m[1], m[2], def); }), "an illegal size is accepted");
      continue;
    }
    if (direct) g = plain ? cube ? G(s[0], n[0], n[1], n[2], def) : G(s[0], s[1], s[2], n[0], n[1], n[2], def) : cube ? G(o, s[0], n[0], n[1], n[2], def) : G(o, s[0], s[1], s[2], n[0], n[1], n[2], def);
    else if (plain) g.Initialize(s[0], s[1], s[2], n[0], n[1], n[2], def);
    else g.Initialize(o, s[0], s[1], s[2], n[0], n[1], n[2], def);
    VH_CHECK(g.IsInitialized(), "not initialized");
    std::map<K, Chunk> model;
    long next = 1;
    std::vector<K> used;
    for (int k = 0; k < 30; k++) {
      K r(3), c(3);
      double f[3];
      for (int i = 0; i < 3; i++) { r[i] = vh::R().in(-2, 1); c[i] = vh::R().in(0, n[i] - 1); f[i] = vh::R().coin() ? 0.5 : vh::R().real(1e-3, 1 - 1e-3); }
      if (!used.empty() && vh::R().coin()) r = vh::R().pick(used);
      Eigen::Vector3d l;
      for (int i = 0; i < 3; i++) l(i) = (r[i] * n[i] + c[i] + f[i]) * s[i];
      const Eigen::Vector3d p = o * l;
      const int op = static_cast<int>(vh::R().in(0, 10));
      d << " " << op << " at " << r[0] << "," << r[1] << "," << r[2] << ":" << c[0] << "," << c[1] << "," << c[2];
      vh::begin_case(d.str());
      long v = next++, tmp = v;
      used.push_back(r);
      const bool there = model.count(r) != 0;
      auto expect = [&](const K& rr, const K& cc) { auto it = model.find(rr); return it == model.end() ? def : it->second.cells ? it->second.c.count(cc) ? it->second.c[cc] : it->second.whole : it->second.whole; };
      auto status = [&](const K& rr) { auto it = model.find(rr); return it == model.end() ? NOT_FOUND : it->second.cells ? FOUND_IN_CELL : FOUND_IN_CHUNK; };
      if (op < 4) {
        const SET_STATUS t = op == 0 ? g.SetCellValue(p, v) : op == 1 ? g.SetCellValue(p(0), p(1), p(2), v) : op == 2 ? g.SetCellValue(p, std::move(tmp)) : g.SetCellValue(p(0), p(1), p(2), std::move(tmp));
        VH_CHECK(t == SET_CELL, "cell write reports " << t);
        Chunk& h = model[r];
        if (!there) { h.cells = true; h.whole = def; }
        else if (!h.cells) { h.cells = true; h.c.clear(); }
        h.c[c] = v;
      } else if (op < 8) {
        const SET_STATUS t = op == 4 ? g.SetChunkValue(p, v) : op == 5 ? g.SetChunkValue(p(0), p(1), p(2), v) : op == 6 ? g.SetChunkValue(p, std::move(tmp)) : g.SetChunkValue(p(0), p(1), p(2), std::move(tmp));
        VH_CHECK(t == SET_CHUNK, "chunk write reports " << t);
        model[r] = Chunk{false, v, {}};
      } else if (op < 10) {
        std::pair<long&, FOUND_STATUS> t = op == 8 ? g.GetMutable(p) : g.GetMutable(p(0), p(1), p(2));
        VH_CHECK(t.second == status(r) && t.first == expect(r, c), "mutable read gives " << t.first << " status " << t.second << ", expected " << expect(r, c));
        if (there) { t.first = v; if (model[r].cells) model[r].c[c] = v; else model[r].whole = v; }
      } else { g.SetDefaultValue(v); def = v; VH_CHECK(g.GetDefaultValue() == v, "default value"); }
      for (int a = 0; a < 8; a++) {
        K rr = a < 4 ? r : K{vh::R().in(-3, 2), vh::R().in(-3, 2), vh::R().in(-3, 2)}, cc(3);
        Eigen::Vector3d w;
        for (int i = 0; i < 3; i++) { cc[i] = vh::R().in(0, n[i] - 1); if (a == 0) cc[i] = c[i]; w(i) = (rr[i] * n[i] + cc[i] + 0.5) * s[i]; }
        const Eigen::Vector3d z = o * w;
        const std::pair<const long&, FOUND_STATUS> x = static_cast<const G&>(g).GetImmutable(z), y = g.GetImmutable(z(0), z(1), z(2));
        VH_CHECK(x.second == status(rr) && y.second == status(rr), "status at " << vh::str(rr) << vh::str(cc) << " is " << x.second);
        VH_CHECK(x.first == expect(rr, cc) && y.first == expect(rr, cc), "value at " << vh::str(rr) << vh::str(cc) << " is " << x.first << ", expected " << expect(rr, cc));
        const CHUNK_REGION cr = g.GetContainingChunkRegion(w);
        for (int i = 0; i < 3; i++) VH_CHECK(std::abs(cr.base(i) - rr[i] * n[i] * s[i]) < 1e-9, "region of a point");
      }
      VH_CHECK(g.GetInternalChunks().size() == model.size(), "number of chunks");
      for (const auto& m : model) {
        const auto it = g.GetInternalChunks().find(CHUNK_REGION(m.first[0] * (n[0] * s[0]), m.first[1] * (n[1] * s[1]), m.first[2] * (n[2] * s[2])));
        VH_CHECK(it != g.GetInternalChunks().end(), "stored chunk");
        const bool cells = m.second.cells;
        const std::vector<double> es = it->second.GetElementSize();
        VH_CHECK(it->second.IsCellInitialized() == cells && it->second.IsChunkInitialized() != cells, "kind of chunk");
        VH_CHECK(it->second.GetIndexLocationInGrid(cells ? n[0] : 1, 0, 0).empty() && it->second.GetIndexLocationInGrid(0, -1, 0).empty(), "location outside the chunk");
        const int64_t ix[3] = {cells ? n[0] - 1 : 0, 0, cells ? n[2] / 2 : 0};
        const std::vector<double> l = it->second.GetIndexLocationInGrid(ix[0], ix[1], ix[2]);
        for (int i = 0; i < 3; i++) {
          VH_CHECK(es[i] == (cells ? s[i] : s[i] * n[i]), "element size");
          VH_CHECK(std::abs(l[i] - (m.first[i] * n[i] * s[i] + (cells ? s[i] * (ix[i] + 0.5) : s[i] * n[i] / 2))) < 1e-9, "location of an element");
        }
      }
    }
  }
  return vh::done();
}

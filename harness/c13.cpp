// Voxel grid serialization: round trip, bytes reported, surrounding bytes kept.
#include <string>
#include <arc_utilities/voxel_grid.hpp>
#include "vh.hpp"
struct T { long id; std::vector<uint8_t> tail; bool operator==(const T& o) const { return id == o.id && tail == o.tail; } };
typedef VoxelGrid::VoxelGrid<T> G;
static uint64_t ser(const T& t, std::vector<uint8_t>& b) {
  const uint64_t at = b.size();
  arc_utilities::SerializeFixedSizePOD<int64_t>(t.id, b);
  arc_utilities::SerializeFixedSizePOD<uint8_t>(static_cast<uint8_t>(t.tail.size()), b);
  b.insert(b.end(), t.tail.begin(), t.tail.end());
  return b.size() - at;
}
static std::pair<T, uint64_t> des(const std::vector<uint8_t>& b, const uint64_t at) {
  T t;
  t.id = arc_utilities::DeserializeFixedSizePOD<int64_t>(b, at).first;
  const uint8_t n = arc_utilities::DeserializeFixedSizePOD<uint8_t>(b, at + 8).first;
  VH_CHECK(at + 9 + n <= b.size(), "an item is read where none was written");
  t.tail.assign(b.begin() + at + 9, b.begin() + at + 9 + n);
  return {t, 9u + n};
}
static T item() { T t; t.id = static_cast<long>(vh::R().u64()); t.tail.resize(vh::R().in(0, 3), static_cast<uint8_t>(vh::R().in(0, 255))); return t; }
int main() {
  vh::init();
  vh::begin_section();
  while (vh::more()) {
    long n[3];
    double s[3];
    for (int i = 0; i < 3; i++) { n[i] = vh::R().in(1, 5); s[i] = vh::R().in(1, 8) / 4.0; }
    Eigen::Quaterniond q(vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(-1, 1), vh::R().real(0.1, 1));
    q.normalize();
    const Eigen::Isometry3d o = Eigen::Translation3d(vh::R().real(-3, 3), vh::R().real(-3, 3), vh::R().real(-3, 3)) * q;
    const bool empty = vh::R().coin(1, 10);
    const T d = item(), b = item();
    G g;
    if (!empty) g.Initialize(o, s[0], s[1], s[2], (int64_t)n[0], (int64_t)n[1], (int64_t)n[2], d, b);
    std::vector<uint8_t> buf(vh::R().in(0, 5), 0xA5);
    std::ostringstream t;
    t << (empty ? "default grid" : "grid ") << n[0] << "x" << n[1] << "x" << n[2] << " cells of " << s[0] << "," << s[1] << "," << s[2] << " ids " << d.id << "," << b.id << " at " << buf.size();
    vh::begin_case(t.str());
    if (!empty) for (int k = 0; k < 20; k++) g.SetValue(vh::R().in(0, n[0] - 1), vh::R().in(0, n[1] - 1), vh::R().in(0, n[2] - 1), item());
    const std::vector<uint8_t> before = buf;
    const bool st = vh::R().coin();
    const uint64_t w = st ? G::Serialize(g, buf, ser) : g.SerializeSelf(buf, ser);
    VH_CHECK(buf.size() == before.size() + w, "wrote " << buf.size() - before.size() << " bytes, reported " << w);
    VH_CHECK(std::equal(before.begin(), before.end(), buf.begin()), "bytes in front of the grid changed");
    buf.resize(buf.size() + vh::R().in(0, 3), 0x5A);
    G h(0.5, 1.0, 2.0, 3.0, item());
    uint64_t r;
    if (st) { const std::pair<G, uint64_t> p = G::Deserialize(buf, before.size(), des); h = p.first; r = p.second; }
    else r = h.DeserializeSelf(buf, before.size(), des);
    VH_CHECK(r == w, "read " << r << " bytes of " << w);
    VH_CHECK(h.IsInitialized() == g.IsInitialized(), "initialized flag");
    VH_CHECK(h.GetNumXCells() == g.GetNumXCells() && h.GetNumYCells() == g.GetNumYCells() && h.GetNumZCells() == g.GetNumZCells(), "cell counts");
    VH_CHECK(h.GetCellSizes() == g.GetCellSizes(), "cell sizes");
    VH_CHECK(h.GetXSize() == g.GetXSize() && h.GetYSize() == g.GetYSize() && h.GetZSize() == g.GetZSize(), "grid sizes");
    VH_CHECK(h.GetImmutableRawData() == g.GetImmutableRawData(), "cells");
    VH_CHECK(h.GetOriginTransform().matrix() == g.GetOriginTransform().matrix(), "origin transform");
    VH_CHECK(h.GetInverseOriginTransform().matrix() == g.GetInverseOriginTransform().matrix(), "inverse origin transform");
    if (!empty) {
      VH_CHECK(h.GetDefaultValue() == d && h.GetOOBValue() == b, "default and out-of-bounds values");
      for (long x = -1; x <= n[0]; x++)
        for (long y = -1; y <= n[1]; y++)
          for (long z = -1; z <= n[2]; z++) {
            VH_CHECK(h.GetImmutable(x, y, z).first == g.GetImmutable(x, y, z).first && h.GetImmutable(x, y, z).second == g.GetImmutable(x, y, z).second, "cell " << x << "," << y << "," << z);
            const Eigen::Vector4d p = g.GridIndexToLocation(x, y, z);
            VH_CHECK(h.LocationToGridIndex4d(p) == g.LocationToGridIndex4d(p), "cell of a location");
          }
    }
  }
  return vh::done();
}

// Bit helpers, clamp and spread, map lookups and conversions, arc_std::find: against definitions written here.
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/stl_wrappers.hpp>
#include "vh.hpp"
template <typename T>
static void one(T v) {
  const unsigned w = sizeof(T) * 8;
  for (unsigned i = 0; i < w; i++) {
    vh::begin_case("width " + std::to_string(w) + " value " + std::to_string(v) + " bit " + std::to_string(i));
    VH_CHECK(arc_helpers::GetBit(v, i) == static_cast<bool>((static_cast<uint64_t>(v) >> i) & 1), "GetBit is wrong");
    for (int b = 0; b < 2; b++) {
      const uint64_t m = static_cast<uint64_t>(1) << i;
      const T want = static_cast<T>(b ? (v | m) : (v & ~m));
      VH_CHECK(arc_helpers::SetBit(v, i, b != 0) == want, "SetBit to " << b << " gives " << +arc_helpers::SetBit(v, i, b != 0) << " instead of " << +want);
      VH_CHECK(arc_helpers::GetBit(want, i) == (b != 0), "GetBit after SetBit is wrong");
    }
  }
}
template <typename T>
static void clamp(T v, T a, T b, T c) {
  std::ostringstream o;
  o.precision(17);
  o << "clamp/spread " << +v << " thresholds " << +a << " " << +b << " " << +c;
  vh::begin_case(o.str());
  const T cl = v < a ? a : v > c ? c : v;
  VH_CHECK(arc_helpers::ClampValue<T>(v, a, c) == cl, "ClampValue gives " << +arc_helpers::ClampValue<T>(v, a, c));
  VH_CHECK(arc_helpers::ClampValueAndWarn<T>(v, a, c) == cl, "ClampValueAndWarn gives " << +arc_helpers::ClampValueAndWarn<T>(v, a, c));
  const T sp = (v > a && v < b) ? a : (v >= b && v < c) ? c : v;
  VH_CHECK(arc_helpers::SpreadValue<T>(v, a, b, c) == sp, "SpreadValue gives " << +arc_helpers::SpreadValue<T>(v, a, b, c));
  VH_CHECK(arc_helpers::SpreadValueAndWarn<T>(v, a, b, c) == sp, "SpreadValueAndWarn gives " << +arc_helpers::SpreadValueAndWarn<T>(v, a, b, c));
}
static void maps() {
  std::map<int, double> m;
  const int n = vh::R().in(0, 9);
  std::vector<int> ks;
  std::vector<double> vs;
  std::vector<std::pair<const int, double>> kv;
  std::string d = "map of";
  for (int i = 0; i < n; i++) {
    ks.push_back(vh::R().in(-4, 4));
    vs.push_back(vh::R().in(0, 100));
    kv.push_back(std::make_pair(ks.back(), vs.back()));
    d += " " + std::to_string(ks.back()) + ":" + std::to_string((int)vs.back());
    m[ks.back()] = vs.back();
  }
  vh::begin_case(d, n > 0);
  std::unordered_map<int, double> u(m.begin(), m.end());
  for (int k = -5; k <= 5; k++) {
    const double want = m.count(k) ? m[k] : -7.0;
    VH_CHECK(arc_helpers::RetrieveOrDefault(m, k, -7.0) == want, "RetrieveOrDefault(map) of " << k);
    VH_CHECK(arc_helpers::RetrieveOrDefault(u, k, -7.0) == want, "RetrieveOrDefault(unordered_map) of " << k);
    int pos = -1;
    for (int i = n; i-- > 0;) if (ks[i] == k) pos = i;
    VH_CHECK(arc_std::find(ks, k) == pos, "arc_std::find of " << k << " gives " << arc_std::find(ks, k));
  }
  std::vector<int> keys;
  for (auto& p : m) keys.push_back(p.first);
  VH_CHECK(arc_helpers::GetKeys(m) == keys, "GetKeys is not the ascending key list");
  auto gkv = arc_helpers::GetKeysAndValues(m);
  VH_CHECK(gkv.size() == m.size() && std::equal(m.begin(), m.end(), gkv.begin()), "GetKeysAndValues differs from the map");
  VH_CHECK((arc_helpers::MakeFromKeysAndValues<int, double>(ks, vs)) == m, "MakeFromKeysAndValues(keys, values) differs");
  VH_CHECK((arc_helpers::MakeFromKeysAndValues<int, double>(kv)) == m, "MakeFromKeysAndValues(pairs) differs");
  std::vector<std::string> ss;
  const int q = vh::R().in(0, 4);
  const std::string sub = vh::R().coin() ? "ab" : "a";
  bool all = true;
  for (int i = 0; i < q; i++) {
    std::string s(vh::R().in(0, 4), 'a');
    for (auto& c : s) c = "aab"[vh::R().in(0, 2)];
    ss.push_back(s);
    bool has = false;
    for (size_t j = 0; j + sub.size() <= s.size(); j++) has |= s.substr(j, sub.size()) == sub;
    all &= has;
    d += " '" + s + "'";
  }
  vh::begin_case("strings " + d + " sub " + sub, q > 0);
  VH_CHECK(arc_helpers::CheckAllStringsForSubstring(ss, sub) == all, "CheckAllStringsForSubstring gives " << !all);
}
int main() {
  vh::init(2);
  vh::begin_section();
  for (int i = 0; i < 256; i++) one<uint8_t>(i);
  for (int i = 0; i < 65536; i += 251) one<uint16_t>(i);
  for (uint64_t v : {0ull, 1ull, ~0ull, 0x8000000000000000ull, 0x80000000ull, 0xffffffffull, 0x100000000ull}) { one<uint64_t>(v); one<uint32_t>(v); }
  while (vh::more()) {
    const uint64_t v = vh::R().u64();
    one<uint64_t>(v);
    one<uint32_t>(v);
    one<uint16_t>(v);
  }
  vh::begin_section();
  for (int v = -3; v <= 3; v++)
    for (int a = -2; a <= 2; a++)
      for (int b = a; b <= 2; b++)
        for (int c = b; c <= 2; c++) {
          clamp<int>(v, a, b, c);
          clamp<double>(v * .5, a * .5, b * .5, c * .5);
          clamp<int64_t>(v * 1000000007LL, a * 1000000007LL, b * 1000000007LL, c * 1000000007LL);
        }
  while (vh::more()) {
    std::vector<double> t = {vh::R().real(-9, 9), vh::R().real(-9, 9), vh::R().real(-9, 9)};
    std::sort(t.begin(), t.end());
    const double v = vh::R().coin(1, 3) ? t[vh::R().in(0, 2)] : vh::R().real(-12, 12);
    clamp<double>(v, t[0], t[1], t[2]);
    clamp<double>(vh::R().coin() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(), t[0], t[1], t[2]);
    clamp<int>((int)v, (int)t[0], (int)t[1], (int)t[2]);
    clamp<uint8_t>((int)(v + 20), (int)t[0] + 20, (int)t[1] + 20, (int)t[2] + 20);
    maps();
  }
  return vh::done();
}

// Round trips of the serialization functions. NAME(f) pastes the format's prefix.
#include <string>
#include <endian.h>
#include <arc_utilities/serialization.hpp>
#include "vh.hpp"
using namespace arc_utilities;
typedef std::vector<uint8_t> B;

static B prefix() { B b; const int n = vh::R().in(0, 12); for (int i = 0; i < n; i++) b.push_back(vh::R().in(0, 255)); return b; }
template <typename T> uint64_t bits(T x) { uint64_t r = 0; std::memcpy(&r, &x, sizeof x); return r; }
template <typename T> bool same(const T& a, const T& b) { return a == b; }
inline bool same(float a, float b) { return bits(a) == bits(b); }
inline bool same(double a, double b) { return bits(a) == bits(b); }

template <typename T> T gen_pod() {
  uint64_t r = vh::R().u64();
  if (vh::R().coin(1, 4)) r &= vh::R().coin() ? 0xffu : 0xff00ff0000000080ull;
  if (vh::R().coin(1, 8)) r = ~0ull << vh::R().in(0, 63);
  T x;
  std::memcpy(&x, &r, sizeof x);
  return x;
}

// serialize after a prefix, add a suffix, deserialize from behind the prefix
template <typename T, typename S, typename D, typename C> void round(const std::string& what, const T& x, S ser, D des, C chk) {
  const B pre = prefix();
  B b = pre;
  const uint64_t n = ser(x, b);
  vh::begin_case(what + " behind " + std::to_string(pre.size()) + " bytes, encoded " + std::to_string(b.size() - pre.size()) + " bytes: " + vh::hex(B(b.begin(), b.begin() + std::min<size_t>(b.size(), 1000))));
  VH_CHECK(b.size() == pre.size() + n, "reports " << n << " bytes but appends " << b.size() - pre.size());
  VH_CHECK(std::equal(pre.begin(), pre.end(), b.begin()), "changes the bytes before it");
  const B enc(b.begin() + pre.size(), b.end());
  chk(enc);
  const B suf = prefix();
  b.insert(b.end(), suf.begin(), suf.end());
  const auto r = des(b, pre.size());
  VH_CHECK(r.second == n, "reads " << r.second << " bytes of " << n);
  VH_CHECK(same(r.first, x), "does not return what was serialized");
}

template <typename T> void pod(const char* nm) {
  const T x = gen_pod<T>();
  round<T>(nm, x, [](const T& v, B& b) { return NAME(Serialize, FixedSizePOD)<T>(v, b); }, [](const B& b, uint64_t c) { return NAME(Deserialize, FixedSizePOD)<T>(b, c); },
           [&](const B& e) {
             VH_CHECK(e.size() == sizeof(T), "size of the encoding");
             const uint64_t w = bits(x);
             for (size_t i = 0; i < sizeof(T); i++) VH_CHECK(e[NETWORK ? sizeof(T) - 1 - i : i] == ((w >> (8 * i)) & 255), "byte order of " << w);
           });
}

template <typename T> std::function<uint64_t(const T&, B&)> ps() { return [](const T& v, B& b) { return NAME(Serialize, FixedSizePOD)<T>(v, b); }; }
template <typename T> std::function<std::pair<T, uint64_t>(const B&, const uint64_t)> pd() { return [](const B& b, const uint64_t c) { return NAME(Deserialize, FixedSizePOD)<T>(b, c); }; }
static size_t big = 0;
static size_t len() { return big ? big : vh::R().coin(1, 20) ? vh::R().in(60, 700) : vh::R().in(0, 5); }
template <typename T> void head(const B& e, size_t n) { for (int i = 0; i < 8; i++) VH_CHECK(e[NETWORK ? 7 - i : i] == ((uint64_t(n) >> (8 * i)) & 255), "size header of " << n << " items"); }

int main() {
  vh::init();
  vh::begin_section();
  typedef std::string STR;
  typedef std::basic_string<SCHAR> CS;
  typedef std::vector<std::pair<int32_t, double>> VP;
  typedef std::map<uint16_t, std::vector<int64_t>> MV;
  auto ss = [](const CS& v, B& b) { return NAME(Serialize, String)<SCHAR>(v, b); };
  auto sd = [](const B& b, const uint64_t c) { return NAME(Deserialize, String)<SCHAR>(b, c); };
  std::function<uint64_t(const std::pair<int32_t, double>&, B&)> pps = [](const std::pair<int32_t, double>& p, B& b) { return NAME(Serialize, Pair)<int32_t, double>(p, b, ps<int32_t>(), ps<double>()); };
  std::function<std::pair<std::pair<int32_t, double>, uint64_t>(const B&, const uint64_t)> ppd = [](const B& b, const uint64_t c) -> std::pair<std::pair<int32_t, double>, uint64_t> { return NAME(Deserialize, Pair)<int32_t, double>(b, c, pd<int32_t>(), pd<double>()); };
  std::function<uint64_t(const std::vector<int64_t>&, B&)> vs = [](const std::vector<int64_t>& p, B& b) { return NAME(Serialize, Vector)<int64_t>(p, b, ps<int64_t>()); };
  std::function<std::pair<std::vector<int64_t>, uint64_t>(const B&, const uint64_t)> vd = [](const B& b, const uint64_t c) { return NAME(Deserialize, Vector)<int64_t>(b, c, pd<int64_t>()); };
  auto none = [](const B&) {};
  while (vh::more()) {
    const uint64_t turn = vh::S().evaluations;
    big = turn == 0 ? 256 : turn < 40 ? 65537 : turn < 60 ? 140000 : 0;
    pod<uint8_t>("uint8_t"); pod<uint16_t>("uint16_t"); pod<uint32_t>("uint32_t"); pod<uint64_t>("uint64_t"); pod<int8_t>("int8_t"); pod<int16_t>("int16_t"); pod<int32_t>("int32_t");
    pod<int64_t>("int64_t"); pod<float>("float"); pod<double>("double");
    CS s; for (size_t n = len(), i = 0; i < n; i++) s.push_back(gen_pod<SCHAR>());
    round<CS>("string", s, ss, sd, [&](const B& e) { VH_CHECK(e.size() == 8 + s.size(), "size of a string"); head<int>(e, s.size()); for (size_t i = 0; i < s.size(); i++) VH_CHECK(e[8 + i] == static_cast<uint8_t>(s[i]), "character " << i); });
    std::vector<int64_t> v; for (size_t n = len(), i = 0; i < n; i++) v.push_back(gen_pod<int64_t>());
    round<std::vector<int64_t>>("vector", v, vs, vd, [&](const B& e) { VH_CHECK(e.size() == 8 + 8 * v.size(), "size of a vector"); head<int>(e, v.size());
      for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < 8; k++) VH_CHECK(e[8 + 8 * i + (NETWORK ? 7 - k : k)] == ((static_cast<uint64_t>(v[i]) >> (8 * k)) & 255), "item " << i); });
    VP vp; for (size_t n = len(), i = 0; i < n; i++) vp.push_back({gen_pod<int32_t>(), vh::R().real(-9, 9)});
    round<VP>("vector of pairs", vp, [&](const VP& x, B& b) { return NAME(Serialize, Vector)<std::pair<int32_t, double>>(x, b, pps); }, [&](const B& b, uint64_t c) { return NAME(Deserialize, Vector)<std::pair<int32_t, double>>(b, c, ppd); }, none);
    std::vector<CS> vss; for (size_t n = vh::R().in(0, 4), i = 0; i < n; i++) { CS t; for (size_t k = vh::R().in(0, 4); k > 0; k--) t.push_back(gen_pod<SCHAR>()); vss.push_back(t); }
    round<std::vector<CS>>("vector of strings", vss, [&](const std::vector<CS>& x, B& b) { return NAME(Serialize, Vector)<CS>(x, b, ss); }, [&](const B& b, uint64_t c) { return NAME(Deserialize, Vector)<CS>(b, c, sd); }, none);
    MV m; for (size_t n = len(), i = 0; i < n; i++) { std::vector<int64_t> q; for (size_t k = vh::R().in(0, 3); k > 0; k--) q.push_back(gen_pod<int64_t>()); m[!big && vh::R().coin() ? vh::R().in(0, 9) : gen_pod<uint16_t>()] = q; }
    round<MV>("map", m, [&](const MV& x, B& b) { return NAME(Serialize, Map)<uint16_t, std::vector<int64_t>>(x, b, ps<uint16_t>(), vs); },
              [&](const B& b, uint64_t c) { return NAME(Deserialize, Map)<uint16_t, std::vector<int64_t>>(b, c, pd<uint16_t>(), vd); }, [&](const B& e) { head<int>(e, m.size()); });
    if (!NETWORK) {
      typedef std::vector<int64_t> VL;
      round<VL>("vector-like", v, [&](const VL& x, B& b) { return SerializeVectorLike<int64_t>(x, b, ps<int64_t>()); }, [&](const B& b, uint64_t c) { return DeserializeVectorLike<int64_t>(b, c, pd<int64_t>()); }, none);
    }
  }
  return vh::done();
}

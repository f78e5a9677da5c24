// Base64: every case checks the RFC 4648 text computed independently, the inverse, and safety on arbitrary text.
#include <arc_utilities/base64_helpers.hpp>
#include "vh.hpp"
static std::string rfc(const std::vector<uint8_t>& b) {
  const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  uint64_t bits = 0;
  int n = 0;
  for (uint8_t x : b) {
    bits = (bits << 8) | x;
    n += 8;
    while (n >= 6) { o += A[(bits >> (n - 6)) & 63]; n -= 6; }
  }
  if (n > 0) o += A[(bits << (6 - n)) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
static void one(const std::vector<uint8_t>& b) {
  vh::begin_case("bytes " + vh::hex(b), !b.empty());
  const std::string e = Base64Helpers::Encode(b);
  VH_CHECK(e == rfc(b), "Encode gives " << e << " instead of " << rfc(b));
  VH_CHECK(Base64Helpers::Decode(e) == b, "Decode(Encode(b)) differs from b");
}
int main() {
  vh::init(2);
  vh::begin_section();
  one({});
  for (int i = 0; i < 256; i++) one({(uint8_t)i});
  for (int i = 0; i < 65536; i++) one({(uint8_t)(i >> 8), (uint8_t)i});
  while (vh::more()) {
    long n = vh::R().coin(1, 20) ? vh::R().in(0, 5000) : vh::R().in(0, 70);
    std::vector<uint8_t> b(n);
    int mode = vh::R().in(0, 3);
    for (auto& x : b) x = mode == 0 ? vh::R().u64() : mode == 1 ? 0xFF : mode == 2 ? vh::R().in(0, 3) : 0xF8 + vh::R().in(0, 7);
    one(b);
  }
  vh::begin_section();
  while (vh::more()) {
    long n = vh::R().in(0, 40);
    std::string s(n, 0);
    int mode = vh::R().in(0, 2);
    for (auto& c : s) c = mode == 0 ? vh::R().u64() : mode == 1 ? "AZaz09+/="[vh::R().in(0, 8)] : 0x80 + vh::R().in(0, 127);
    s.shrink_to_fit();
    vh::begin_case("text " + vh::hexs(s), n > 0);
    auto d = Base64Helpers::Decode(s);
    VH_CHECK(d.size() <= 3 * ((s.size() + 3) / 4), "Decode of " << n << " characters gives " << d.size() << " bytes");
  }
  return vh::done();
}

// Pseudorandom generators against the published reference algorithms, reseeding and discard.
#include <arc_utilities/arc_helpers.hpp>
#include "vh.hpp"
struct RefSplit {
  uint64_t x;
  explicit RefSplit(uint64_t s) : x(s) {}
  uint64_t operator()() {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
struct RefPlus {
  uint64_t s[2];
  explicit RefPlus(uint64_t v) { RefSplit r(v); s[0] = r(); s[1] = r(); }
  uint64_t operator()() {
    uint64_t s1 = s[0];
    const uint64_t s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
  }
};
struct RefStar {
  uint64_t s[16];
  int p = 0;
  explicit RefStar(uint64_t v) { RefSplit r(v); for (auto& x : s) x = r(); }
  uint64_t operator()() {
    const uint64_t s0 = s[p];
    uint64_t s1 = s[p = (p + 1) & 15];
    s1 ^= s1 << 31;
    s[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30);
    return s[p] * 1181783497276652981ull;
  }
};
template <typename G, typename F>
static void run(const char* name) {
  const uint64_t seed = vh::R().coin(1, 4) ? vh::R().in(0, 5) : vh::R().u64(), seed2 = vh::R().u64();
  const int a = vh::R().in(0, 40), d = vh::R().coin(1, 60) ? vh::R().in(250, 140000) : vh::R().in(0, 70), b = vh::R().in(1, 40);
  vh::begin_case(std::string(name) + " seed " + std::to_string(seed) + ": " + std::to_string(a) + " draws, discard " + std::to_string(d) + ", " +
                 std::to_string(b) + " draws, reseed " + std::to_string(seed2));
  G g(seed);
  F f(seed);
  for (int i = 0; i < a; i++) { const uint64_t x = g(), y = f(); VH_CHECK(x == y, "draw " << i << " is " << x << " instead of " << y); }
  g.discard(d);
  for (int i = 0; i < d; i++) f();
  G copy(g);
  for (int i = 0; i < b; i++) { const uint64_t x = g(), y = f(); VH_CHECK(x == y, "draw " << i << " after discard is " << x << " instead of " << y); }
  f = F(seed);
  for (int i = 0; i < a + d; i++) f();
  VH_CHECK(copy() == f(), "a copied generator continues differently");
  g.seed(seed2);
  f = F(seed2);
  for (int i = 0; i < b + 20; i++) { const uint64_t x = g(), y = f(); VH_CHECK(x == y, "draw " << i << " after reseeding is " << x << " instead of " << y); }
  VH_CHECK(G::min() == 0 && G::max() == ~0ull, "min/max");
}
int main() {
  vh::init();
  vh::begin_section();
  {
    vh::begin_case("discard of 2^24 + 3 outputs");
    const unsigned long long n = (1ull << 24) + 3;
    arc_helpers::SplitMix64PRNG a(7); RefSplit x(7); a.discard(n);
    arc_helpers::XorShift128PlusPRNG b(7); RefPlus y(7); b.discard(n);
    arc_helpers::XorShift1024StarPRNG c(7); RefStar z(7); c.discard(n);
    for (unsigned long long i = 0; i < n; i++) { x(); y(); z(); }
    VH_CHECK(a() == x() && b() == y() && c() == z(), "the output after discarding 2^24 + 3 outputs differs from drawing them");
  }
  while (vh::more()) {
    run<arc_helpers::SplitMix64PRNG, RefSplit>("SplitMix64");
    run<arc_helpers::XorShift128PlusPRNG, RefPlus>("XorShift128Plus");
    run<arc_helpers::XorShift1024StarPRNG, RefStar>("XorShift1024Star");
  }
  return vh::done();
}

// Replay harness: runs executable contracts on the real code. One process, many cases; the description of the case in
// progress lives in a mapped file so that a crash, abort or hang names its input.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {
struct Rng {
  std::mt19937_64 g;
  uint64_t u64() { return g(); }
  // uniform in [lo, hi]
  long in(long lo, long hi) { return lo + static_cast<long>(g() % static_cast<uint64_t>(hi - lo + 1)); }
  bool coin(int num = 1, int den = 2) { return in(0, den - 1) < num; }
  double unit() { return (g() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[static_cast<size_t>(in(0, static_cast<long>(v.size()) - 1))]; }
};

struct State {
  Rng rng;
  double secs = 10;
  bool thorough = false;
  char* cur = nullptr;
  size_t cap = 1 << 16;
  uint64_t evaluations = 0, trivial = 0;
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  std::chrono::steady_clock::time_point t0;
  std::string desc;
  std::set<std::string> known;
  int section = 0, sections = 1;
};
inline State& S() { static State s; return s; }
inline Rng& R() { return S().rng; }

inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count(); }

inline void on_alarm(int) {
  static const char m[] = "\nVH-TIMEOUT\n";
  (void)!write(1, m, sizeof(m) - 1);
  _exit(11);
}

inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o += ' ';
    else o += c;
  }
  return o;
}

inline void stats() {
  std::fflush(stdout);
  std::string o = "VH-STATS {\"evaluations\": " + std::to_string(S().evaluations) + ", \"distinct\": " + std::to_string(S().seen.size()) +
                  ", \"samples\": [";
  for (size_t i = 0; i < S().samples.size(); i++) o += (i ? ", \"" : "\"") + esc(S().samples[i]).substr(0, 300) + "\"";
  o += "]}\n";
  std::fputs(o.c_str(), stdout);
  std::fflush(stdout);
}

// starts a case; the text must determine the input completely. nontrivial: the operation has something to do
inline void begin_case(const std::string& d, bool nontrivial = true) {
  State& s = S();
  s.desc = d;
  size_t n = std::min(d.size(), s.cap - 2);
  std::memcpy(s.cur, d.data(), n);
  s.cur[n] = 0;
  s.evaluations++;
  if (nontrivial) {
    if (s.seen.size() < 4000000) s.seen.insert(std::hash<std::string>()(d));
    uint64_t e = s.evaluations;
    if (s.samples.size() < 3 || (s.samples.size() < 8 && (e & (e - 1)) == 0)) s.samples.push_back(d);
  }
  struct itimerval tv = {};
  tv.it_value.tv_sec = 60;
  setitimer(ITIMER_REAL, &tv, nullptr);
}

[[noreturn]] inline void fail(const std::string& msg) {
  std::cout.flush();
  std::printf("\nVH-FAIL %s | case: %s\n", esc(msg).c_str(), esc(S().desc).substr(0, 6000).c_str());
  stats();
  std::fflush(stdout);
  _exit(10);
}
inline void check(bool ok, const std::string& msg) { if (!ok) fail(msg); }
#define VH_CHECK(c, m) do { if (!(c)) { std::ostringstream vh_o; vh_o << m; vh::fail(vh_o.str()); } } while (0)

// a listed finding: reported once, never a violation
inline void known(const std::string& text) {
  if (S().known.insert(text).second) { std::printf("\nVH-KNOWN %s\n", text.c_str()); std::fflush(stdout); }
}

// the budget is split evenly over the sections of a harness
inline void begin_section() { S().section++; }
inline bool more() { return elapsed() < S().secs * S().section / S().sections; }

inline void init(int sections = 1) {
  State& s = S();
  const char* e = std::getenv("VH_SEED");
  s.rng.g.seed(e ? std::strtoull(e, nullptr, 10) * 0x9E3779B97F4A7C15ULL + 1 : 1);
  e = std::getenv("VH_SECS");
  if (e) s.secs = std::atof(e);
  e = std::getenv("VH_TIER");
  s.thorough = e && std::string(e) == "thorough";
  e = std::getenv("VH_CASE");
  int fd = e ? open(e, O_RDWR | O_CREAT | O_TRUNC, 0600) : -1;
  if (fd >= 0 && ftruncate(fd, static_cast<off_t>(s.cap)) == 0) {
    void* p = mmap(nullptr, s.cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    s.cur = p == MAP_FAILED ? nullptr : static_cast<char*>(p);
  }
  if (!s.cur) s.cur = static_cast<char*>(std::calloc(1, s.cap));
  signal(SIGALRM, on_alarm);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  s.t0 = std::chrono::steady_clock::now();
  s.sections = sections;
  // the code under test writes progress to stdout and stderr: keep only our own lines
  std::cout.setstate(std::ios_base::badbit);
  std::cerr.setstate(std::ios_base::badbit);
  std::clog.setstate(std::ios_base::badbit);
}
inline int done() {
  struct itimerval tv = {};
  setitimer(ITIMER_REAL, &tv, nullptr);
  stats();
  std::fflush(stdout);
  _exit(0);
}

template <typename T>
std::string str(const std::vector<T>& v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << +v[i];
  o << "]";
  return o.str();
}
inline std::string hex(const std::vector<uint8_t>& v) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (uint8_t b : v) { o += d[b >> 4]; o += d[b & 15]; }
  return o;
}
inline std::string hexs(const std::string& v) { return hex(std::vector<uint8_t>(v.begin(), v.end())); }
inline std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
template <typename F>
bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
}  // namespace vh

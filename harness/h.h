// Shared part of the C++ harnesses: random source, and the line protocol read by lib/hrun.py
//   @V <key>\t<message>   a violation      @S <name> <n>   counter      @M <name> <v>   maximum
//   @D <hash>             a distinct non-trivial case      @X <text>    a sample        @E <n> evaluations     @end
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
namespace H {
struct Rng {
  std::mt19937_64 g;
  explicit Rng(uint64_t a, uint64_t b = 0) { std::seed_seq s{(uint32_t)a, (uint32_t)(a >> 32), (uint32_t)b, (uint32_t)(b >> 32)}; g.seed(s); }
  uint64_t u() { return g(); }
  int i(int lo, int hi) { return (int)(lo + (int64_t)(g() % (uint64_t)((int64_t)hi - lo + 1))); }
  double d(double lo = 0, double hi = 1) { return lo + (hi - lo) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
  double n() { double a = d(1e-300, 1), b = d(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  bool p(double q) { return d() < q; }
  double logu(double lo, double hi) { return std::exp(d(std::log(lo), std::log(hi))); }
  template <class T> T const& pick(std::vector<T> const& v) { return v[g() % v.size()]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[g() % k]); }
};
inline std::map<std::string, int>& vcount() { static std::map<std::string, int> m; return m; }
inline std::map<std::string, long>& stats() { static std::map<std::string, long> m; return m; }
inline std::map<std::string, double>& maxs() { static std::map<std::string, double> m; return m; }
inline std::set<uint64_t>& dist() { static std::set<uint64_t> s; return s; }
inline long& evals() { static long n = 0; return n; }
inline int& rank() { static int r = 0; return r; }
// the protocol goes to stdout, or to a file per process where several ranks would interleave
inline FILE* out() { static FILE* f = [] { const char* e = getenv("VP_OUT"); FILE* g = e ? fopen((std::string(e) + "." + std::to_string((long)getpid())).c_str(), "w") : nullptr; return g ? g : stdout; }(); return f; }
inline std::string clean(std::string s) { for (auto& c : s) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = c == '\n' ? '|' : '?'; return s; }
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void V(std::string const& key, std::string const& msg) { if (vcount()[key]++ < 3) { fprintf(out(), "@V %s\t%s\n", clean(key).c_str(), clean(msg).c_str()); fflush(out()); } }
inline void S(std::string const& k, long n = 1) { stats()[k] += n; }
inline void M(std::string const& k, double v) { auto& m = maxs()[k]; if (v > m) m = v; }
inline void D(uint64_t h) { dist().insert(h); }
inline void X(std::string const& s) { static int n = 0; if (n++ < 2) fprintf(out(), "@X %s\n", clean(s).c_str()); }
inline void ev(long n = 1) { evals() += n; }
inline void note(std::string const& s) { fprintf(out(), "@N %s\n", clean(s).c_str()); fflush(out()); }  // last thing attempted (shown if the process dies)
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { auto c = (const unsigned char*)p; for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ull; return h; }
inline uint64_t hash(std::string const& s) { return hash(s.data(), s.size()); }
inline int end()
{
  for (auto& k : stats()) fprintf(out(), "@S %s\t%ld\n", k.first.c_str(), k.second);
  for (auto& k : maxs()) fprintf(out(), "@M %s\t%.6e\n", k.first.c_str(), k.second);
  fprintf(out(), "@DN %zu %llu\n", dist().size(), 0ull);
  size_t n = 0; for (auto h : dist()) { if (n++ >= 20000) break; fprintf(out(), "@D %llx\n", (unsigned long long)h); }
  fprintf(out(), "@E %ld\n@end\n", evals()); fflush(out());
  return 0;
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
}

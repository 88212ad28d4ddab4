// Monitoring core shared by every harness in /verif/harness.
//
// A property is decided by one or more *workloads*.  A workload is a function that builds one
// case from a deterministic random stream, drives the real library code with it and hands what
// it observed to the oracles below.  Every oracle call is an observed event and is counted under
// the oracle's name; every violated oracle is recorded under "<workload>/<oracle>" with the case
// number that replays it.
#ifndef MON_H
#define MON_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)((long)b - a + 1)); }  // inclusive
  bool chance(double p) { return u() < p; }
  double sgn() { return chance(0.5) ? 1. : -1.; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  double gauss() { return std::sqrt(-2 * std::log(1 - u())) * std::cos(6.283185307179586 * u()); }
};

struct Ctx {
  Rng rng;
  long idx = 0;
  std::string workload;
  bool thorough = false;
  bool verbose = false;
  std::string scratch;                 // directory for files of this run
  std::string describe;                // description of the case (for samples and violations)
  Ctx(uint64_t seed) : rng(seed) {}

  // ---- oracles -------------------------------------------------------------------------
  void ev(const std::string& name, long n = 1);                    // an observed event
  bool chk(bool cond, const std::string& oracle, const char* fmt = "", ...) __attribute__((format(printf, 4, 5)));
  bool near(double got, double want, double tol, const std::string& oracle, const char* fmt = "", ...)
      __attribute__((format(printf, 6, 7)));                       // |got-want| <= tol*(1+|want|)
  bool eq(const std::string& got, const std::string& want, const std::string& oracle);
  bool eqi(long got, long want, const std::string& oracle, const char* fmt = "", ...) __attribute__((format(printf, 5, 6)));
  void violation(const std::string& oracle, const std::string& detail);
  void state(uint64_t h);                                          // a distinct non-trivial state
  void state(const std::string& s) { state(hstr(s)); }
  void inconclusive(const std::string& why);
};

typedef void (*CaseFn)(Ctx&);
struct Workload { std::string prop, name; CaseFn fn; long quick, thorough; int flags; };
std::vector<Workload>& registry();
struct Reg { Reg(const char* p, const char* n, CaseFn f, long q, long t, int flags = 0) { registry().push_back({p, n, f, q, t, flags}); } };

enum { LEAKCHECK = 1 };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Runs f and returns which kind of exception came out ("" = none).
std::string thrown(const std::function<void()>& f);
bool isGearException(const std::string& kind);

}  // namespace mon

#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define MON_WORKLOAD(prop, name, fn, quick, thorough) static mon::Reg MON_CAT(mon_reg_, __LINE__)(prop, name, fn, quick, thorough);
#define MON_WORKLOAD_F(prop, name, fn, quick, thorough, flags) static mon::Reg MON_CAT(mon_reg_, __LINE__)(prop, name, fn, quick, thorough, flags);
#endif

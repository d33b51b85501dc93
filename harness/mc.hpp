// Stateless bounded-exhaustive explorer.
//
// A suite is a function of a Ctx. Every point where the alphabet, the environment or the
// scheduler may go more than one way asks ctx.choose(n). The explorer runs the function once for
// every sequence of answers (depth-first, all of them, nothing sampled), against the real code.
// An execution is identified by its choice sequence, which is what a replay file contains.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
struct Skip {};
struct Failed {};

inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
inline uint64_t hd(double v)   // canonical form of a real number: 1e-6 relative grid
{
  if (v == 0 || std::fabs(v) < 1e-9) return 0;
  if (!std::isfinite(v)) return std::isnan(v) ? 1 : 2;
  int e;
  double m = std::frexp(v, &e);
  return mix(static_cast<uint64_t>(std::llround(m * 1e6)), static_cast<uint64_t>(e + 5000));
}

class Ctx
{
public:
  int choose(int n, const char * what = "");
  template <class T> const T & pick(const std::vector<T> & v, const char * what = "")
  {
    return v[choose(static_cast<int>(v.size()), what)];
  }
  bool flip(const char * what = "") { return choose(2, what) == 1; }
  void step(uint64_t n = 1) { transitions += n; }
  void state(uint64_t h);
  __attribute__((format(printf, 2, 3))) void log(const char * fmt, ...);
  __attribute__((format(printf, 2, 3))) [[noreturn]] void fail(const char * fmt, ...);
  __attribute__((format(printf, 3, 4))) void check(bool ok, const char * fmt, ...);
  // |a - b| <= tol * max(1, |b|), and both finite
  void near(double a, double b, double tol, const char * what);
  // Marks a finding of the known-findings file; returns true when it is listed there.
  bool known(const std::string & signature);

  bool thorough = false;
  bool tracing = false;
  // bookkeeping
  std::vector<int> prefix;          // forced choices
  std::vector<int> choices, fanout; // made so far
  uint64_t transitions = 0;
  uint64_t outcome = 0;             // hash of what was observed (distinct outcomes are counted)
  void observe(uint64_t h) { outcome = mix(outcome, h); }
  std::string trace;
  std::string message;
  bool failed = false;
  bool replaying = false;
  size_t shard_depth = 0;
  void * engine = nullptr;
};

struct Suite
{
  const char * name;
  const char * bound;                 // what is enumerated, in words
  size_t shard_depth;                 // executions are divided among processes by their first choices
  std::function<void(Ctx &)> body;
  bool thorough_only = false;
  int hang_s = 40;                    // one execution longer than this is a hang
};

int run(int argc, char ** argv, const char * property, std::vector<Suite> suites);
}  // namespace mc
#endif

// Stateless exhaustive explorer used by every check in /verif.
//
// A scenario is a deterministic function of the answers given by
// Ctx::choose().  The explorer runs it once per element of the complete tree of
// answers (depth-first, no pruning, no sampling), so that *every* operation
// sequence / input / random-number answer of the scenario's bounded space is
// executed on the real library and compared with the scenario's reference model.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation { std::string msg; };
struct Known { std::string id; };

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}

// ---- hash of a reference-model state (used to count distinct states) --------
struct H {
  uint64_t h;
  H() : h(1469598103934665603ull) {}
  H& raw(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } return *this; }
  H& operator()(long v) { return raw((uint64_t)v * 0x9E3779B97F4A7C15ull + 17); }
  H& operator()(int v) { return (*this)((long)v); }
  H& operator()(unsigned v) { return (*this)((long)v); }
  H& operator()(size_t v) { return (*this)((long)v); }
  H& operator()(bool v) { return (*this)((long)v); }
  H& operator()(double v) { if (v == 0) v = 0; float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return raw(u); }
  H& operator()(const std::string& s) { for (char c : s) (*this)((long)c); return (*this)((long)s.size()); }
  template <class T> H& operator()(const std::vector<T>& v) { for (const T& x : v) (*this)(x); return (*this)((long)v.size()); }
};

class Ctx {
 public:
  bool thorough;
  // number of answers 0..n-1; every one is explored
  int choose(int n, const char* label = "")
  {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label); _Exit(90); }
    int c;
    if (pos_ < path_.size()) {
      c = path_[pos_];
      if (pos_ < width_.size()) { if (width_[pos_] != n) nondet_(label, n); }
      else width_.push_back(n);
      if (c >= n) nondet_(label, n);
    } else { c = 0; path_.push_back(0); width_.push_back(n); }
    pos_++;
    publish_();
    prod_ *= n;
    // the subtree below the first point with enough alternatives belongs to one shard
    if (shard_done_ == false && (prod_ >= 4.0 * nshards_ || (pos_ >= 3 && prod_ >= nshards_) || pos_ >= 6)) check_shard_();
    if (tracing_ && label[0]) log_ += fmt("%s=%d ", label, c);
    return c;
  }
  template <class T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose((int)v.size(), label)]; }
  // one transition (operation executed on implementation and reference model)
  void act(const char* f, ...) __attribute__((format(printf, 2, 3)))
  {
    transitions++; acts_++;
    if (tracing_) { char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); log_ += b; log_ += "; "; }
  }
  void state(const H& h) { states.insert(h.h); }
  void note(const std::string& s) { if (tracing_) { log_ += s; log_ += "; "; } }
  void fail(const std::string& m) { throw Violation{m}; }
  void ok(bool c, const std::string& m) { checks++; if (!c) throw Violation{m}; }
  void ok(bool c, const char* m) { checks++; if (!c) throw Violation{m}; }
  void eq(long a, long b, const char* what) { checks++; if (a != b) throw Violation{fmt("%s: got %ld, expected %ld", what, a, b)}; }
  void near(double a, double b, const char* what, double tol = 1e-9)
  {
    checks++;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) {
      if ((std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0))) return;
      throw Violation{fmt("%s: got %.17g, expected %.17g", what, a, b)};
    }
    double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    if (std::fabs(a - b) > tol * s) throw Violation{fmt("%s: got %.17g, expected %.17g", what, a, b)};
  }
  // relative comparison (for quantities of arbitrary magnitude)
  void rel(double a, double b, const char* what, double tol = 1e-9)
  {
    checks++;
    if (a == b) return;
    if (!(std::fabs(a - b) <= tol * std::fmax(std::fabs(a), std::fabs(b))))
      throw Violation{fmt("%s: got %.17g, expected %.17g", what, a, b)};
  }
  // a genuine defect listed in known_findings.json: end this execution
  void known(const char* id)
  {
    if (known_ids.count(id)) { throw Known{id}; }
    throw Violation{fmt("unlisted finding %s", id)};
  }

  // statistics
  uint64_t transitions = 0, executions = 0, checks = 0;
  std::unordered_set<uint64_t> states;
  std::set<std::string> known_ids;
  std::map<std::string, uint64_t> known_hits;

 public:  // (runner internals)
  std::vector<int> path_, width_;
  size_t pos_ = 0, acts_ = 0;
  bool tracing_ = false;
  std::string log_;
  int shard_ = 0, nshards_ = 1;
  double prod_ = 1;
  bool shard_done_ = false;
  std::vector<int> shard_prefix_; long shard_counter_ = -1; bool shard_mine_ = true;
  struct Skip {};
  void nondet_(const char* label, int n)
  {
    fprintf(stderr, "mc: non-deterministic replay at choice %zu (%s, %d alternatives)\n", pos_, label, n);
    throw Violation{fmt("execution is not a function of the enumerated choices (choice %zu '%s')", pos_, label)};
  }
  void check_shard_()
  {
    shard_done_ = true;
    if (nshards_ == 1) return;
    std::vector<int> pre(path_.begin(), path_.begin() + pos_);
    if (pre != shard_prefix_) { shard_prefix_ = pre; shard_counter_++; shard_mine_ = (shard_counter_ % nshards_) == shard_; }
    if (!shard_mine_) throw Skip();
  }
  void publish_();
  friend struct Runner;
};

typedef std::function<void(Ctx&)> Fn;
struct Scenario { std::string name; Fn fn; int shards; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* name, Fn f, int shards = 1) { scenarios().push_back(Scenario{name, f, shards}); } };
#define SCENARIO(id, shards) \
  static void sc_##id(mc::Ctx&); static mc::Reg reg_##id(#id, sc_##id, shards); static void sc_##id(mc::Ctx& c)

// ---- environment: random numbers requested by the library -------------------
struct Rng {
  std::function<double()> uni;                        // answer in [0,1)
  std::function<double()> norm;                       // standard normal answer
  uint64_t nuni = 0, nnorm = 0;
  std::vector<double> unis, norms;                    // answers given so far
  void reset() { uni = nullptr; norm = nullptr; clearlog(); }
  void clearlog() { nuni = nnorm = 0; unis.clear(); norms.clear(); }
};
extern Rng rng;

}  // namespace mc
#endif

// Oracles for "draws one of n weighted alternatives", independent of how the draw is implemented.
#ifndef VERIF_SAMPLING_H
#define VERIF_SAMPLING_H
#include "mc.h"
namespace so {
using mc::Ctx; using mc::fmt; using std::vector;
static const double LAST = 1.0 - 1.0 / 4294967296.0;   // largest answer of the random source
// one draw: returns the index of the alternative drawn (or <0 when it is none of them)
typedef std::function<int()> One;
// a list of `num` draws
typedef std::function<vector<int>(unsigned)> Many;

// integer weights w; total M.  M equally spaced answers must hit every alternative exactly w times;
// extreme and boundary answers must give an alternative of positive weight.
inline void one_check(Ctx& c, const One& draw, const vector<int>& w, const char* who, bool edges = true)
{
  int n = (int)w.size(), M = 0; for (int x : w) M += x;
  vector<int> cnt(n, 0);
  for (int k = 0; k < M; k++) {
    mc::rng.uni = [&]() { return (k + 0.5) / M; };
    int v = draw(); c.act("u=%g -> %d", (k + 0.5) / M, v);
    c.ok(v >= 0 && v < n, fmt("%s: answer %g of the random source gives none of the alternatives (%d)", who, (k + 0.5) / M, v)); cnt[v]++;
  }
  for (int i = 0; i < n; i++) c.ok(cnt[i] == w[i], fmt("%s: alternative %d drawn for %d of %d equally spaced answers, expected %d", who, i, cnt[i], M, w[i]));
  if (edges) {
    vector<double> edge{0.0, 1e-300, 1.0 / 4294967296.0, LAST};
    for (int k = 1; k < M; k++) { edge.push_back((double)k / M); edge.push_back(std::nextafter((double)k / M, 0)); edge.push_back(std::nextafter((double)k / M, 1)); }
    for (double u : edge) {
      mc::rng.uni = [&]() { return u; };
      int v = draw(); c.act("u=%.17g -> %d", u, v);
      c.ok(v >= 0 && v < n, fmt("%s: answer %.17g gives none of the alternatives (%d)", who, u, v));
      c.ok(w[v] > 0, fmt("%s: answer %.17g gives alternative %d, which has weight zero", who, u, v));
    }
  }
  mc::rng.uni = nullptr;
}
// all answer tuples of an M-point grid: joint distribution of the drawn list (as a multiset)
inline void list_check(Ctx& c, const Many& draw, const vector<int>& w, unsigned num, int M, double tol, const char* who, bool zero_ok = true)
{
  int n = (int)w.size(); double W = 0; for (int x : w) W += x;
  std::map<vector<int>, double> got, want;
  long total = 1; for (unsigned i = 0; i < num; i++) total *= M;
  vector<double> us(num);
  for (long t = 0; t < total; t++) {
    long q = t; for (unsigned i = 0; i < num; i++) { us[i] = (q % M + 0.5) / M; q /= M; }
    size_t pos = 0; mc::rng.uni = [&]() { double v = us[pos % num]; pos++; return v; };
    vector<int> l = draw(num); c.transitions++;
    c.ok(l.size() == num, fmt("%s: asked for %u samples, got %zu", who, num, l.size()));
    vector<int> k(n, 0); for (int v : l) { c.ok(v >= 0 && v < n && w[v] > 0, fmt("%s: drew %d", who, v)); k[v]++; }
    got[k] += 1.0 / total;
  }
  vector<int> idx(num, 0);
  for (;;) {
    vector<int> k(n, 0); double p = 1; for (int i : idx) { k[i]++; p *= w[i] / W; }
    if (p > 0) want[k] += p;
    unsigned i = 0; while (i < num && ++idx[i] == n) idx[i++] = 0;
    if (i == num) break;
  }
  for (auto& e : want) { double g = got.count(e.first) ? got[e.first] : 0; c.ok(std::fabs(g - e.second) <= tol, fmt("%s: a list outcome has frequency %.6f over all answer tuples, probability %.6f", who, g, e.second)); }
  for (auto& e : got) c.ok(want.count(e.first), "impossible list drawn");
  if (zero_ok) { mc::rng.uni = []() { return 0.5; }; vector<int> l = draw(0); c.transitions++; c.ok(l.empty(), fmt("%s: asked for an empty list, got %zu samples", who, l.size())); }
  for (int m = 0; m < (1 << (2 * num)); m++) {
    static const double ex[4] = {0.0, 1.0 / 4294967296.0, 0.5, LAST};
    for (unsigned i = 0; i < num; i++) us[i] = ex[(m >> (2 * i)) & 3];
    size_t pos = 0; mc::rng.uni = [&]() { double v = us[pos % num]; pos++; return v; };
    vector<int> l = draw(num); c.transitions++; c.ok(l.size() == num, "list size");
    for (int v : l) { c.ok(v >= 0 && v < n, fmt("%s: extreme answers give none of the alternatives (%d)", who, v)); c.ok(w[v] > 0, fmt("%s: extreme answers give alternative %d of weight zero", who, v)); }
  }
  mc::rng.uni = nullptr;
}
// exact measure of the set of answers that draw each alternative: the draw is a piecewise constant function of one answer;
// every boundary between two answers with different outcomes is located by bisection
inline void measure_check(Ctx& c, const One& draw, const vector<double>& w, const char* who)
{
  int n = (int)w.size(); double W = 0; for (double x : w) W += x;
  auto at = [&](double u) { mc::rng.uni = [u]() { return u; }; int v = draw(); c.transitions++;
    c.ok(v >= 0 && v < n, fmt("%s: answer %.17g gives none of the alternatives (%d)", who, u, v));
    c.ok(w[v] > 0, fmt("%s: answer %.17g gives alternative %d, which has weight zero", who, u, v)); return v; };
  vector<double> len(n, 0.0); int K = 64 > 4 * n ? 64 : 4 * n;
  struct Seg { double a, b; int va, vb; }; vector<Seg> st;
  double pu = 0; int pv = at(0);
  for (int k = 1; k <= K; k++) { double u = k == K ? LAST : (double)k / K; int v = at(u); st.push_back(Seg{pu, u, pv, v}); pu = u; pv = v; }
  len[pv] += 1 - LAST;
  while (!st.empty()) {
    Seg s = st.back(); st.pop_back();
    if (s.va == s.vb) { len[s.va] += s.b - s.a; continue; }
    double m = s.a + (s.b - s.a) / 2;
    if (m <= s.a || m >= s.b || s.b - s.a < 1e-17) { len[s.vb] += s.b - s.a; continue; }
    int vm = at(m); st.push_back(Seg{s.a, m, s.va, vm}); st.push_back(Seg{m, s.b, vm, s.vb});
  }
  for (int i = 0; i < n; i++) c.ok(std::fabs(len[i] - w[i] / W) <= 1e-5 * (w[i] / W) + 1e-14, fmt("%s: alternative %d is drawn for a share of %.15g of all answers, its probability is %.15g", who, i, len[i], w[i] / W));
  mc::rng.uni = nullptr;
}
// weight patterns for many alternatives
inline vector<double> pattern(int n, int p)
{
  vector<double> w(n, 0.0);
  for (int i = 0; i < n; i++) switch (p) {
    case 0: w[i] = 1; break;
    case 1: w[i] = i % 2 ? 0 : 3; break;
    case 2: w[i] = i == n - 1 ? 5 : 0; break;
    case 3: w[i] = (i * 3) % 4; break;
    case 4: w[i] = i == 0 ? 1000 : 1; break;                  // front loaded
    case 5: w[i] = i == n - 1 ? 1000 : 1; break;
    case 6: w[i] = i == n / 2 ? 1 : 1e-9; break;             // tiny beside large
    case 7: w[i] = std::pow(0.5, i < 28 ? i : 28); break;
    case 8: w[i] = (n - i) * 1e-200; break;
    default: w[i] = i == n / 2 ? 0 : 1 + 0.1 * i;
  }
  double s = 0; for (double x : w) s += x; if (!(s > 0)) w[0] = 1;
  return w;
}
static const int PATTERNS = 10;
inline vector<int> weights(Ctx& c, int n, int M)   // every composition of M into n non-negative parts
{
  vector<int> w(n); int left = M;
  for (int i = 0; i < n - 1; i++) { w[i] = c.choose(left + 1, "w"); left -= w[i]; }
  w[n - 1] = left; return w;
}
// list obtained from *equal* answers a: the order statistics of the ordered-uniform method are then known in closed form
inline void equal_answers_check(Ctx& c, const Many& draw, const vector<int>& w, unsigned num, double a, const char* who)
{
  int n = (int)w.size(); double W = 0; for (int x : w) W += x;
  mc::rng.uni = [=]() { return a; };
  vector<int> l = draw(num); c.act("%s num=%u n=%d answer=%g", who, num, n, a); c.eq(l.size(), num, "list size");
  vector<double> u(num); u[num - 1] = std::pow(a, 1.0 / num); for (int i = (int)num - 2; i >= 0; i--) u[i] = u[i + 1] * std::pow(a, 1.0 / (i + 1));
  vector<int> lo(n, 0), hi(n, 0), got(n, 0);
  for (int v : l) { c.ok(v >= 0 && v < n && w[v] > 0, fmt("%s: drew %d", who, v)); got[v]++; }
  for (unsigned i = 0; i < num; i++) { double cum = 0; for (int s = 0; s < n; s++) { double b = cum, e = cum + w[s] / W; if (u[i] > b - 1e-9 && u[i] < e + 1e-9) hi[s]++; if (u[i] > b + 1e-9 && u[i] < e - 1e-9) lo[s]++; cum = e; } }
  if (a > 0) for (int s = 0; s < n; s++) c.ok(got[s] >= lo[s] && got[s] <= hi[s], fmt("%s: alternative %d drawn %d times, expected between %d and %d", who, s, got[s], lo[s], hi[s]));
  mc::rng.uni = nullptr;
}
}  // namespace so
#endif

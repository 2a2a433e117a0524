// C01: a discrete pdf is a normalised distribution after every history of operations
#include "mc_main.h"
#include <pdf/discretepdf.h>
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt;

typedef vector<double> V;
static void compare(Ctx& c, const DiscretePdf& d, const V& m, const char* who)
{
  c.eq(d.NumStatesGet(), m.size(), "number of states");
  c.eq(d.DimensionGet(), 1, "dimension");
  vector<Probability> all = d.ProbabilitiesGet();
  c.eq(all.size(), m.size(), "number of probabilities");
  double sum = 0;
  for (size_t i = 0; i < m.size(); i++) {
    double p = (double)d.ProbabilityGet((int)i);
    c.ok(p == (double)all[i], "single and bulk probability queries disagree");
    c.ok(p >= 0 && p <= 1 + 1e-9, fmt("%s: probability of state %zu out of range: %.17g", who, i, p));
    c.ok(std::fabs(p - m[i]) <= 1e-7 * m[i] + 1e-15, fmt("%s: probability of state %zu: got %.17g, expected %.17g", who, i, p, m[i]));
    sum += p;
  }
  c.near(sum, 1.0, "sum of probabilities");
  DiscretePdf probe(d); int best = probe.MostProbableStateGet();
  c.ok(best >= 0 && best < (int)m.size(), "most probable state is not a state");
  for (size_t i = 0; i < m.size(); i++) c.ok(m[best] >= m[i] * (1 - 1e-9), "most probable state does not have maximal probability");
  // drawing uses the same distribution: with equally spaced answers of the random source each state
  // must be drawn within one answer of its share
  const int G = 12; vector<int> cnt(m.size(), 0); int k = 0;
  mc::rng.uni = [&]() { return (k + 0.5) / G; };
  for (k = 0; k < G; k++) { Sample<int> s; c.ok(d.SampleFrom(s), "sampling refused"); int v = s.ValueGet(); c.ok(v >= 0 && v < (int)m.size(), "sampled state is not a state"); cnt[v]++; }
  for (size_t i = 0; i < m.size(); i++) c.ok(std::fabs(cnt[i] - G * m[i]) <= 1.0 + 1e-6, fmt("%s: state %zu drawn %d times out of %d, probability %.6g", who, i, cnt[i], G, m[i]));
  mc::rng.uni = nullptr;
}
// reference semantics of changing one probability
static void refset(Ctx& c, V& m, int s, double a, const DiscretePdf& d)
{
  double rest = 0; for (size_t i = 0; i < m.size(); i++) if ((int)i != s) rest += m[i];
  if (rest > 0) { for (size_t i = 0; i < m.size(); i++) if ((int)i != s) m[i] *= (1 - a) / rest; m[s] = a; }
  else { // how the freed mass is spread over states that all had probability zero is not specified
    for (size_t i = 0; i < m.size(); i++) m[i] = (double)d.ProbabilityGet((int)i);
    double r = 0; for (size_t i = 0; i < m.size(); i++) if ((int)i != s) { c.ok(m[i] >= 0, "negative probability"); r += m[i]; }
    c.near(m[s], a, "probability that was set"); c.near(r, 1 - a, "mass of the other states");
  }
}
static vector<V> bulk(int n, bool odd = false)
{
  vector<V> r;
  r.push_back(V(n, 1.0));
  V a(n, 0.0); a[0] = 1; r.push_back(a);
  V b(n); for (int i = 0; i < n; i++) b[i] = i + 1.0; r.push_back(b);
  V z(n, 0.0); r.push_back(z);                             // cannot be normalised
  V t(n); for (int i = 0; i < n; i++) t[i] = (n - i) * 1e-12; r.push_back(t);
  V h(n); for (int i = 0; i < n; i++) h[i] = (i % 2) * 1e12 + (i == n - 1 ? 3e12 : 0); r.push_back(h);
  if (odd) {
    V f(n); for (int i = 0; i < n; i++) f[i] = (1.0 + 4e-7) * (i + 1.0) / (n * (n + 1) / 2); r.push_back(f);   // nearly normalised
    V g(n); for (int i = 0; i < n; i++) g[i] = (1.0 - 3e-4) * (n - i) / (n * (n + 1) / 2); r.push_back(g);
    V k(n, 1e-14); k[n / 2] = 1; r.push_back(k);                                                                // tiny beside large
    V l(n); for (int i = 0; i < n; i++) l[i] = (i + 1) * 1e-305; r.push_back(l);
    V u(n); for (int i = 0; i < n; i++) u[i] = (i + 1) * 1e300; r.push_back(u);
    V q(n, 0.0); q[n - 1] = 1e-200; r.push_back(q);
  }
  return r;
}
static void step(Ctx& c, std::unique_ptr<DiscretePdf>& d, V& m, const V& as, bool odd)
{
  int n = (int)m.size();
  vector<V> bs = bulk(n, odd);
  int nset = n > 1 ? n * (int)as.size() : 1;
  int op = c.choose(nset + (int)bs.size() + 5, "op");
  if (op < nset) {
    int s = n > 1 ? op / (int)as.size() : 0; double a = n > 1 ? as[op % as.size()] : 1.0;
    c.act("set(%d,%g)", s, a);
    c.ok(d->ProbabilitySet(s, a), "setting one probability refused");
    refset(c, m, s, a, *d);
  } else if (op < nset + (int)bs.size()) {
    V b = bs[op - nset]; vector<Probability> pv(b.begin(), b.end());
    double sum = 0; for (double x : b) sum += x;
    c.act("setall(#%d)", op - nset);
    bool ret = d->ProbabilitiesSet(pv);
    for (int i = 0; i < n; i++) c.ok((double)pv[i] == b[i], "the caller's vector was modified");
    c.ok(ret == (sum > 0), fmt("setting all probabilities (sum %g) returned %d", sum, (int)ret));
    if (sum > 0) for (int i = 0; i < n; i++) m[i] = b[i] / sum;
  } else {
    switch (op - nset - (int)bs.size()) {
    case 0: { c.act("copy"); std::unique_ptr<DiscretePdf> e(new DiscretePdf(*d));
        if (n > 1) d->ProbabilitySet(0, 0.5); else d->ProbabilitySet(0, 1.0);
        d = std::move(e); break; }
    case 1: { c.act("clone"); std::unique_ptr<DiscretePdf> e(d->Clone()); vector<Probability> u(n, Probability(1.0)); d->ProbabilitiesSet(u); d = std::move(e); break; }
    case 2: { c.act("assign"); std::unique_ptr<DiscretePdf> e(new DiscretePdf(n)); *e = *d; vector<Probability> u(n, Probability(1.0)); d->ProbabilitiesSet(u); d = std::move(e); break; }
    case 3: { c.act("assign other size"); std::unique_ptr<DiscretePdf> e(new DiscretePdf(n + 2)); *e = *d; d = std::move(e); break; }
    case 4: { c.act("mutate a copy"); DiscretePdf e(*d); vector<Probability> u(n, Probability(0.0)); u[n - 1] = 2.0; e.ProbabilitiesSet(u);
        std::unique_ptr<DiscretePdf> f(d->Clone()); f->ProbabilitySet(n - 1, 1.0); break; }
    }
  }
}
static void run(Ctx& c, int n, int depth, const V& as, bool odd = false)
{
  std::unique_ptr<DiscretePdf> d(new DiscretePdf(n)); V m(n, 1.0 / n);
  compare(c, *d, m, "initially");
  c.state(mc::H()(m));
  for (int i = 0; i < depth; i++) { step(c, d, m, as, odd); compare(c, *d, m, fmt("after step %d", i + 1).c_str()); c.state(mc::H()(m)); }
}
SCENARIO(ops_small, 8) { int n = 1 + c.choose(4, "states"); run(c, n, c.thorough ? (n <= 2 ? 5 : 4) : (n <= 3 ? 4 : 3), V{0, 0.25, 1}); }
SCENARIO(ops_values, 4) { int n = 2 + c.choose(2, "states"); run(c, n, c.thorough ? 4 : 3, V{0, 1e-9, 1e-14, 1.0 / 3, 0.7, 0.999999, 1}, true); }
// many sizes, each single state set once or twice
SCENARIO(sizes, 8)
{
  static const int sz[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 31, 32, 33, 50, 64, 100, 128, 257};
  int n = sz[c.choose(21, "size")];
  std::unique_ptr<DiscretePdf> d(new DiscretePdf(n)); V m(n, 1.0 / n);
  compare(c, *d, m, "initially");
  int reps = n <= 10 ? 2 : 1;
  for (int k = 0; k < reps; k++) {
    int s = c.choose(n, "state"); double a = n == 1 ? 1 : V{0, 0.3, 1}[c.choose(3, "a")];
    c.act("set(%d,%g)", s, a);
    c.ok(d->ProbabilitySet(s, a), "refused"); refset(c, m, s, a, *d); compare(c, *d, m, "after set"); c.state(mc::H()(m));
  }
  { // copies of every size
    std::unique_ptr<DiscretePdf> e(new DiscretePdf(*d)), f(d->Clone()); DiscretePdf g(n > 3 ? 3 : 4); g = *d;
    c.act("copy, clone, assign"); compare(c, *e, m, "copy"); compare(c, *f, m, "clone"); compare(c, g, m, "assigned"); }
  if (c.choose(2, "bulk")) { vector<Probability> v(n); double sum = 0; for (int i = 0; i < n; i++) { v[i] = (double)((i * 7) % 5); sum += (i * 7) % 5; }
    bool r = d->ProbabilitiesSet(v); c.ok(r == (sum > 0), "bulk set status"); if (sum > 0) for (int i = 0; i < n; i++) m[i] = ((i * 7) % 5) / sum;
    c.act("bulk"); compare(c, *d, m, "after bulk"); c.state(mc::H()(m)); }
}
// long periodic histories: every word of length <= 2 (3 if thorough) over a small alphabet repeated to length 60
SCENARIO(periodic, 4)
{
  int n = 3, w = 1 + c.choose(c.thorough ? 3 : 2, "wordlen"); vector<std::pair<int, double>> word;
  V as{0, 0.3, 0.9, 1};
  for (int i = 0; i < w; i++) { int s = c.choose(n, "s"); word.push_back(std::make_pair(s, as[c.choose(4, "a")])); }
  std::unique_ptr<DiscretePdf> d(new DiscretePdf(n)); V m(n, 1.0 / n);
  for (int k = 0; k < 60; k++) { auto o = word[k % w]; c.act("set(%d,%g)", o.first, o.second); c.ok(d->ProbabilitySet(o.first, o.second), "refused"); refset(c, m, o.first, o.second, *d); compare(c, *d, m, fmt("step %d", k).c_str()); c.state(mc::H()(m)); }
}
// equal values of every kind and every size: equal probabilities, some state is the most probable one
SCENARIO(equal_values, 2)
{
  static const double vs[] = {0.1, 0.2, 0.3, 0.6, 0.7, 1.0 / 3, 1e-5, 1.1, 3, 1e-150};
  int n = 1 + c.choose(c.thorough ? 200 : 64, "size"); double v = vs[c.choose(10, "value")]; int lead = c.choose(3, "leading zeros");
  if (lead >= n) return;
  DiscretePdf d(n); V m(n, 0.0); vector<Probability> pv(n, Probability(0.0));
  for (int i = lead; i < n; i++) { pv[i] = v; m[i] = 1.0 / (n - lead); }
  c.act("%d values %g", n - lead, v); c.ok(d.ProbabilitiesSet(pv), "refused"); compare(c, d, m, "equal values"); c.state(mc::H()(m));
}

// C05: a sample-based pdf is a normalised weighted sample set, with the matching moments and cumulative weights, after every history
#include "mc_main.h"
#include "mctraits.h"
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt;
using MatrixWrapper::ColumnVector; using MatrixWrapper::SymmetricMatrix;
typedef vector<double> V;

struct Model { bool set = false; int n = 0; vector<int> keys; V w; };

template <class X> struct Mom { static void check(Ctx&, const MCPdf<typename X::T>&, const Model&) {} };
template <int D> struct Mom<TVec<D>> {
  static void check(Ctx& c, const MCPdf<ColumnVector>& p, const Model& m)
  {
    ref::Mat mu(D, 1), S(D, D);
    for (int i = 0; i < m.n; i++) for (int d = 0; d < D; d++) mu(d) += (ref::R)m.w[i] * TVec<D>::comp(m.keys[i], d);
    for (int i = 0; i < m.n; i++) for (int d = 0; d < D; d++) for (int e = 0; e < D; e++) S(d, e) += (ref::R)m.w[i] * (TVec<D>::comp(m.keys[i], d) - mu(d)) * (TVec<D>::comp(m.keys[i], e) - mu(e));
    br::same(c, br::from(p.ExpectedValueGet()), mu, "expected value");
    br::same(c, br::from(p.CovarianceGet()), S, "covariance");
    br::same(c, br::from(p.ExpectedValueGet()), mu, "expected value (second query)");
  }
};
template <> struct Mom<TUns> {
  static void check(Ctx& c, const MCPdf<unsigned>& p, const Model& m)
  {
    double mu = 0; for (int i = 0; i < m.n; i++) mu += m.w[i] * TUns::val(m.keys[i]);
    unsigned e = p.ExpectedValueGet(); c.ok(std::fabs((double)e - mu) <= 0.5 + 1e-9, fmt("expected value %u is not the integer nearest to %.9g", e, mu));
    double s = 0; for (int i = 0; i < m.n; i++) { double d = (double)TUns::val(m.keys[i]) - e; s += m.w[i] * d * d; }
    SymmetricMatrix q = p.CovarianceGet(); c.near(q(1, 1), s, "second moment about the reported mean");
  }
};
template <class X> static void compare(Ctx& c, MCPdf<typename X::T>& p, const Model& m, const char* who)
{
  typedef typename X::T T;
  c.eq(p.NumSamplesGet(), m.n, "number of samples");
  if (!m.set) return;
  const MCPdf<T>& cp = p;
  const vector<WeightedSample<T>>& l = cp.ListOfSamplesGet(); c.eq(l.size(), m.n, "length of the sample list");
  double sum = 0;
  for (int i = 0; i < m.n; i++) {
    c.ok(X::same(l[i].ValueGet(), X::val(m.keys[i])), fmt("%s: value of sample %d", who, i));
    c.ok(std::fabs(l[i].WeightGet() - m.w[i]) <= 1e-9 * m.w[i] + 1e-200, fmt("%s: weight of sample %d is %.15g, expected %.15g", who, i, l[i].WeightGet(), m.w[i]));
    const WeightedSample<T>& s = cp.SampleGet(i); c.ok(X::same(s.ValueGet(), X::val(m.keys[i])) && s.WeightGet() == l[i].WeightGet(), "single and bulk sample queries disagree");
    c.ok(l[i].WeightGet() >= 0, "negative weight"); sum += l[i].WeightGet();
  }
  c.near(sum, 1, "sum of weights");
  vector<double>& cum = p.CumulativePDFGet(); c.eq(cum.size(), m.n + 1, "length of the cumulative weights"); double a = 0;
  for (int i = 0; i <= m.n; i++) { c.near(cum[i], a, fmt("%s: cumulative weight %d", who, i).c_str()); if (i < m.n) a += m.w[i]; }
  Mom<X>::check(c, p, m);
  // drawing follows the weights
  const int G = 10; vector<int> cnt(64, 0); V share(64, 0.0); for (int i = 0; i < m.n; i++) if (m.keys[i] < 64) share[m.keys[i]] += m.w[i];
  if (m.n <= 8) {
    for (int k = 0; k < G; k++) { mc::rng.uni = [&]() { return (k + 0.5) / G; }; Sample<T> s(X::dim); c.ok(p.SampleFrom(s), "sampling refused"); int v = X::key(s.ValueGet()); c.ok(v >= 0 && v < 64, "drew a value that is not in the list"); cnt[v]++; }
    for (int v = 0; v < 64; v++) { int mult = 0; for (int i = 0; i < m.n; i++) if (m.keys[i] == v) mult++; c.ok(std::fabs(cnt[v] - G * share[v]) <= (mult ? mult : 0) + 1e-6, fmt("%s: value #%d drawn %d times out of %d, weight %.4g", who, v, cnt[v], G, share[v])); }
    mc::rng.uni = nullptr;
  }
}
template <class X> static vector<WeightedSample<typename X::T>> wl(const vector<int>& k, const V& w)
{ vector<WeightedSample<typename X::T>> l; for (size_t i = 0; i < k.size(); i++) { WeightedSample<typename X::T> s(X::dim); s.ValueSet(X::val(k[i])); s.WeightSet(w[i]); l.push_back(s); } return l; }
template <class X> static vector<Sample<typename X::T>> ul(const vector<int>& k)
{ vector<Sample<typename X::T>> l; for (int i : k) { Sample<typename X::T> s(X::dim); s.ValueSet(X::val(i)); l.push_back(s); } return l; }
static void pattern(int n, int kind, vector<int>& k, V& w)
{
  k.clear(); w.clear();
  for (int i = 0; i < n; i++) switch (kind) {
    case 0: k.push_back(i); w.push_back(i + 1.0); break;
    case 1: k.push_back(n - i); w.push_back(i == 0 ? 0.0 : 0.5); if (n == 1) w[0] = 2; break;
    case 2: k.push_back(3); w.push_back((n - i) * 1e-12); break;      // duplicates, tiny weights
    case 3: k.push_back(2 * i + 1); w.push_back(i == n - 1 ? 7e9 : 0.0); break;
    default: k.push_back(i); w.push_back(0.0); break;                 // cannot be normalised
  }
}
// weights of extreme or deceptive size: sums next to one, tiny beside large, hardly representable, front loaded
static void extreme(int n, int kind, vector<int>& k, V& w)
{
  k.clear(); w.clear(); double base = n * (n + 1) / 2.0;
  for (int i = 0; i < n; i++) { k.push_back((i * 7) % 40); switch (kind) {
    case 0: w.push_back((i + 1) / base * (1 + 4e-7)); break;
    case 1: w.push_back((i + 1) / base * (1 - 6e-9)); break;
    case 2: w.push_back((n - i) / base * (1 + 8e-13)); break;
    case 3: w.push_back(i == n / 2 ? 1.0 : 1e-12 * (i + 1)); break;
    case 4: w.push_back(i == 0 ? 1.0 : 1e-18 * (i + 1)); break;
    case 5: w.push_back((i + 1) * 1e-304); break;
    case 6: w.push_back((i % 3 + 1) * 1e299); break;
    case 7: w.push_back(i == 0 ? 5000.0 : 1.0); break;
    case 8: w.push_back(i == n - 1 ? 1e-30 : 1e-10); break;
    default: w.push_back(1.0 / n); break;
  } }
}
template <class X> static void magnitudes(Ctx& c, std::initializer_list<int> ns)
{
  typedef typename X::T T; vector<int> nn(ns); int n = nn[c.choose((int)nn.size(), "n")], kd = c.choose(10, "kind"), path = c.choose(6, "path"); vector<int> k, k2; V w, w2; Model m;
  auto norm = [&]() { long double s = 0; for (double x : w) s += x; m.keys = k; m.w = w; for (double& x : m.w) x /= s; m.n = n; m.set = true; };
  c.act("n=%d kind=%d path=%d", n, kd, path); extreme(n, kd, k, w); std::unique_ptr<MCPdf<T>> p(new MCPdf<T>(path == 1 ? n + 2 : n, X::dim));
  if (path == 0 || path == 1) c.ok(p->ListOfSamplesSet(wl<X>(k, w)), "refused");
  else if (path == 2) c.ok(p->ListOfSamplesUpdate(wl<X>(k, w)), "refused");
  else {
    pattern(n, 0, k2, w2); c.ok(p->ListOfSamplesUpdate(wl<X>(k2, w2)), "refused"); if (path == 3) p->CumulativePDFGet();
    c.ok(path == 3 ? p->ListOfSamplesSet(wl<X>(k, w)) : p->ListOfSamplesUpdate(wl<X>(k, w)), "refused");
    if (path == 5) { std::unique_ptr<MCPdf<T>> q(new MCPdf<T>(*p)); norm(); compare<X>(c, *q, m, "copy"); MCPdf<T> z(1, X::dim); z = *p; compare<X>(c, z, m, "assigned"); std::unique_ptr<MCPdf<T>> y(p->Clone()); compare<X>(c, *y, m, "clone"); }
  }
  norm(); compare<X>(c, *p, m, "extreme weights"); compare<X>(c, *p, m, "asked again"); c.state(mc::H()(n)(kd)(path));
  // the same weights handed over again, on top of themselves
  c.ok(p->ListOfSamplesUpdate(wl<X>(k, w)), "refused"); compare<X>(c, *p, m, "updated with the same list");
}
SCENARIO(magnitudes_vec2, 8) { magnitudes<TVec<2>>(c, {1, 2, 3, 5, 9, 33, 200}); }
SCENARIO(magnitudes_vec7, 8) { magnitudes<TVec<7>>(c, {1, 2, 4, 12}); }
SCENARIO(magnitudes_uns, 8) { magnitudes<TUns>(c, {1, 2, 3, 5, 9, 33, 200}); }
SCENARIO(magnitudes_ints, 4) { magnitudes<TInt>(c, {1, 2, 3, 6, 40}); }
template <class X> static void step(Ctx& c, std::unique_ptr<MCPdf<typename X::T>>& p, Model& m, int sizes, int kinds)
{
  typedef typename X::T T; int op = c.choose(2 + 2 + 1 + 4, "op"); vector<int> k; V w;
  auto norm = [&](const vector<int>& kk, const V& ww) { double s = 0; for (double x : ww) s += x; m.keys = kk; m.w = ww; for (double& x : m.w) x /= s; m.n = (int)kk.size(); m.set = true; };
  if (op == 0 || op == 2) {
    int n = op == 0 ? 1 + c.choose(sizes, "size") : m.n; int kd = c.choose(kinds, "kind"); pattern(n, kd, k, w);
    vector<WeightedSample<T>> l = wl<X>(k, w); double s = 0; for (double x : w) s += x;
    c.act("%s weighted n=%d kind=%d", op ? "update" : "set", n, kd);
    bool r = op == 0 ? p->ListOfSamplesSet(l) : p->ListOfSamplesUpdate(l);
    if (n > 0) c.ok(r == (s > 0), fmt("list with weight sum %g: status %d", s, (int)r));
    if (n > 0 && s > 0) norm(k, w);
    for (size_t i = 0; i < l.size(); i++) c.ok(l[i].WeightGet() == w[i], "the caller's list was modified");
  } else if (op == 1 || op == 3) {
    int n = op == 1 ? 1 + c.choose(sizes, "size") : m.n; int kd = c.choose(2, "kind"); pattern(n, kd, k, w);
    vector<Sample<T>> l = ul<X>(k); c.act("%s unweighted n=%d kind=%d", op == 3 ? "update" : "set", n, kd);
    if (n == 0) return;
    bool r = op == 1 ? p->ListOfSamplesSet(l) : p->ListOfSamplesUpdate(l); c.ok(r, "refused"); norm(k, V(n, 1.0));
  } else if (op == 4) {
    int n = 1 + c.choose(sizes + 1, "size"); c.act("number of samples := %d", n); p->NumSamplesSet(n); if (n != m.n) { m.n = n; m.set = false; }
  } else {
    if (!m.set) { c.act("skip"); return; }
    pattern(m.n, 3, k, w); vector<WeightedSample<T>> other = wl<X>(k, w);
    switch (op - 5) {
    case 0: { c.act("copy"); std::unique_ptr<MCPdf<T>> q(new MCPdf<T>(*p)); p->ListOfSamplesUpdate(other); p = std::move(q); break; }
    case 1: { c.act("clone"); std::unique_ptr<MCPdf<T>> q(p->Clone()); p->ListOfSamplesUpdate(other); p = std::move(q); break; }
    case 2: { c.act("assign"); std::unique_ptr<MCPdf<T>> q(new MCPdf<T>(2, X::dim)); *q = *p; p->ListOfSamplesUpdate(other); p = std::move(q); break; }
    case 3: { c.act("scribble on a copy"); MCPdf<T> q(*p); q.ListOfSamplesUpdate(other); q.NumSamplesSet(m.n + 3); break; }
    }
  }
}
template <class X> static void run(Ctx& c, int depth, int sizes, int kinds)
{
  int n0 = c.choose(3, "initial size"); std::unique_ptr<MCPdf<typename X::T>> p(new MCPdf<typename X::T>(n0, X::dim)); Model m; m.n = n0;
  c.eq(p->DimensionGet(), X::dim, "dimension");
  for (int i = 0; i < depth; i++) { step<X>(c, p, m, sizes, kinds); compare<X>(c, *p, m, fmt("after step %d", i + 1).c_str()); c.eq(p->DimensionGet(), X::dim, "dimension"); c.state(mc::H()(m.n)(m.set)(m.keys)(m.w)); }
}
SCENARIO(vec2, 16) { run<TVec<2>>(c, c.thorough ? 4 : 3, 3, 5); }
SCENARIO(vec1, 8) { run<TVec<1>>(c, 2, 4, 5); }
SCENARIO(vec3, 8) { run<TVec<3>>(c, 2, 4, 5); }
SCENARIO(vec5, 8) { run<TVec<5>>(c, 2, 4, 5); }
SCENARIO(uns, 8) { run<TUns>(c, c.thorough ? 4 : 3, 3, 5); }
SCENARIO(ints, 8) { run<TInt>(c, 3, 2, 5); }
SCENARIO(dbls, 8) { run<TDbl>(c, 3, 2, 5); }
template <class X> static void sizes(Ctx& c)
{
  static const int sz[] = {1, 2, 3, 5, 8, 10, 16, 17, 50, 100, 256, 1000};
  int a = sz[c.choose(12, "n1")], b = sz[c.choose(12, "n2")], k1 = c.choose(4, "k1"), k2 = c.choose(5, "k2"); vector<int> k; V w; Model m;
  MCPdf<typename X::T> p(a, X::dim); pattern(a, k1, k, w); c.act("update %d", a); c.ok(p.ListOfSamplesUpdate(wl<X>(k, w)), "refused");
  auto norm = [&]() { double s = 0; for (double x : w) s += x; m.keys = k; m.w = w; for (double& x : m.w) x /= s; m.n = (int)k.size(); m.set = true; };
  norm(); compare<X>(c, p, m, "first");
  pattern(b, k2, k, w); if (k2 < 4) { c.act("set %d", b); c.ok(p.ListOfSamplesSet(wl<X>(k, w)), "refused"); norm(); } else { c.act("set unweighted %d", b); c.ok(p.ListOfSamplesSet(ul<X>(k)), "refused"); w.assign(b, 1.0); norm(); }
  compare<X>(c, p, m, "second"); c.state(mc::H()(a)(b)(k1)(k2));
}
SCENARIO(sizes_vec2, 8) { sizes<TVec<2>>(c); }
SCENARIO(sizes_uns, 8) { sizes<TUns>(c); }
// two sample sets operated in every interleaving (they share nothing)
SCENARIO(interleaved, 8)
{
  typedef TVec<2> X; std::unique_ptr<MCPdf<ColumnVector>> p[2]; Model m[2];
  for (int i = 0; i < 2; i++) { p[i].reset(new MCPdf<ColumnVector>(2, 2)); vector<int> k; V w; pattern(2, 0, k, w); p[i]->ListOfSamplesSet(wl<X>(k, w)); m[i].set = true; m[i].n = 2; m[i].keys = k; m[i].w = V{1.0 / 3, 2.0 / 3}; }
  for (int s = 0; s < (c.thorough ? 3 : 2); s++) { int i = c.choose(2, "which"); step<X>(c, p[i], m[i], 3, 4); compare<X>(c, *p[0], m[0], "first"); compare<X>(c, *p[1], m[1], "second"); c.state(mc::H()(m[0].w)(m[0].keys)(m[1].w)(m[1].keys)); }
}

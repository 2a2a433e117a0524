// C06: drawing from a sample-based pdf returns its samples in proportion to their weights, for every answer of the random source
#include "mc_main.h"
#include "mctraits.h"
#include "sampling.h"
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt;

template <class X> struct P {
  typedef typename X::T T; MCPdf<T> p;
  P(int n) : p(n, X::dim) {}
  void set(const vector<int>& w, double scale = 1) { vector<WeightedSample<T>> l; for (size_t i = 0; i < w.size(); i++) { WeightedSample<T> s(X::dim); s.ValueSet(X::val((int)i)); s.WeightSet(w[i] * scale); l.push_back(s); } p.ListOfSamplesSet(l); }
  static int one(const MCPdf<T>& q) { Sample<T> s(X::dim); s.ValueSet(X::val(999)); if (!q.SampleFrom(s)) return -2; return X::key(s.ValueGet()); }
  static vector<int> many(const MCPdf<T>& q, unsigned k, SampleMthd m, size_t pre) { vector<Sample<T>> l(pre); vector<int> r; if (!q.SampleFrom(l, k, m)) return vector<int>(k, -2); for (auto& s : l) r.push_back(X::key(s.ValueGet())); return r; }
};
template <class X> static void all_weights(Ctx& c, int maxn, int M)
{
  int n = 1 + c.choose(maxn, "n"); vector<int> w = so::weights(c, n, M); double scale = c.choose(2, "scale") ? 1e-9 : 1.0;
  P<X> p(n); p.set(w, scale); c.state(mc::H()(w)(scale));
  so::one_check(c, [&]() { return P<X>::one(p.p); }, w, "single draw");
  unsigned num = 5 * M; size_t pos = 0; mc::rng.uni = [&]() { return (pos++ % M + 0.5) / M; };
  vector<int> l = P<X>::many(p.p, num, SampleMthd::DEFAULT, 3); c.eq(l.size(), num, "list size"); vector<int> cnt(n, 0); for (int v : l) { c.ok(v >= 0 && v < n, "drew a value not in the list"); cnt[v]++; }
  for (int i = 0; i < n; i++) c.eq(cnt[i], 5 * w[i], "occurrences in a list");
}
SCENARIO(single_vec, 4) { all_weights<TVec<2>>(c, c.thorough ? 5 : 4, c.thorough ? 8 : 6); }
SCENARIO(single_int, 4) { all_weights<TInt>(c, 4, 8); }
SCENARIO(single_dbl, 4) { all_weights<TDbl>(c, 3, 6); }
SCENARIO(single_uns, 4) { all_weights<TUns>(c, 3, 6); }
template <class X> static void lists(Ctx& c)
{
  int n = 1 + c.choose(3, "n"); vector<int> w = so::weights(c, n, 4); int m = c.choose(2, "method"); unsigned num = 1 + c.choose(3, "num");
  SampleMthd mth = m ? SampleMthd::RIPLEY : SampleMthd::DEFAULT; P<X> p(n); p.set(w); c.state(mc::H()(w)(m)(num));
  int M = num == 1 ? 64 : num == 2 ? (c.thorough ? 96 : 48) : (c.thorough ? 32 : 16); size_t t = 0;
  so::list_check(c, [&](unsigned k) { t++; return P<X>::many(p.p, k, mth, (t * 5) % (2 * k + 1)); }, w, num, M, m && num > 1 ? 2.5 / M : 1e-9, m ? "ordered-uniform list" : "list");
  c.act("lists n=%d num=%u method=%d", n, num, m);
}
SCENARIO(lists_vec, 8) { lists<TVec<2>>(c); }
SCENARIO(lists_int, 8) { lists<TInt>(c); }
SCENARIO(ripley_large, 4)
{
  static const unsigned nums[] = {1, 2, 3, 5, 10, 64, 100, 1000}; static const double as[] = {0.0, 0.25, 0.5, 0.75, so::LAST};
  unsigned num = nums[c.choose(8, "num")]; int n = 2 + c.choose(4, "n"), z = c.choose(n + 1, "zero"); vector<int> w(n, 2); if (z < n) w[z] = 0;
  double a = as[c.choose(5, "answer")]; P<TVec<2>> p(n); p.set(w); c.state(mc::H()(w)(num)(a));
  so::equal_answers_check(c, [&](unsigned k) { return P<TVec<2>>::many(p.p, k, SampleMthd::RIPLEY, 0); }, w, num, a, "ordered-uniform list");
}
SCENARIO(sizes, 4)
{
  static const int sz[] = {1, 2, 5, 8, 9, 16, 33, 100, 256, 1000}; int n = sz[c.choose(10, "n")], pat = c.choose(4, "pattern"); vector<int> w(n);
  for (int i = 0; i < n; i++) w[i] = pat == 0 ? 1 : pat == 1 ? (i % 2 ? 0 : 3) : pat == 2 ? (i == n - 1 ? 5 : 0) : (i * 3) % 4; int s = 0; for (int x : w) s += x; if (!s) w[0] = 1;
  P<TVec<1>> p(n); p.set(w); c.state(mc::H()(w)); so::one_check(c, [&]() { return P<TVec<1>>::one(p.p); }, w, "single draw", n <= 300);
  so::list_check(c, [&](unsigned k) { return P<TVec<1>>::many(p.p, k, SampleMthd::RIPLEY, 0); }, w, 1, 2 * (s ? s : 1), 1e-9, "ripley 1");
}
// drawing follows the current weights after every short history
SCENARIO(history, 8)
{
  typedef TVec<2> X; P<X> p(2); vector<vector<int>> pats{{1}, {8, 0}, {2, 6}, {0, 8, 0}, {2, 2, 4}, {0, 4, 4}, {1, 0, 3, 4}}; vector<int> w = pats[1 + c.choose(6, "start")]; p.set(w);
  for (int k = 0; k < (c.thorough ? 3 : 2); k++) {
    int op = c.choose((int)pats.size() + 3, "op");
    if (op < (int)pats.size()) { w = pats[op]; c.act("set #%d", op); p.set(w); }
    else if (op == (int)pats.size()) { c.act("refused list"); p.set(vector<int>(w.size(), 0)); }
    else if (op == (int)pats.size() + 1) { c.act("unweighted"); vector<Sample<X::T>> l; for (size_t i = 0; i < w.size(); i++) { Sample<X::T> s(2); s.ValueSet(X::val((int)i)); l.push_back(s); } p.p.ListOfSamplesUpdate(l); w.assign(w.size(), 2); }
    else { c.act("unweighted set of 3"); vector<Sample<X::T>> l; for (int i = 0; i < 3; i++) { Sample<X::T> s(2); s.ValueSet(X::val(i)); l.push_back(s); } p.p.ListOfSamplesSet(l); w.assign(3, 2); }
    c.state(mc::H()(w));
    MCPdf<X::T> e(p.p), f(1, 2); f = p.p; std::unique_ptr<MCPdf<X::T>> g(p.p.Clone());
    const MCPdf<X::T>* q[] = {&p.p, &e, &f, g.get()};
    for (int i = 0; i < 4; i++) { so::one_check(c, [&]() { return P<X>::one(*q[i]); }, w, i ? "copy" : "after history"); }
    so::list_check(c, [&](unsigned n) { return P<X>::many(p.p, n, SampleMthd::RIPLEY, 0); }, w, 2, 16, 0.16, "ripley after history");
  }
}
// exact share of every sample, at many sizes and weights of very different size, for the object itself, its copies, and a list of one
template <class X> static void shares(Ctx& c, std::initializer_list<int> ns)
{
  typedef typename X::T T; vector<int> nn(ns); int n = nn[c.choose((int)nn.size(), "n")], pat = c.choose(so::PATTERNS, "pattern"), hist = c.choose(4, "history"); vector<double> w = so::pattern(n, pat);
  auto list = [&](const vector<double>& v) { vector<WeightedSample<T>> l; for (size_t i = 0; i < v.size(); i++) { WeightedSample<T> s(X::dim); s.ValueSet(X::val((int)i)); s.WeightSet(v[i]); l.push_back(s); } return l; };
  MCPdf<T> p(hist == 1 ? 2 : n, X::dim); c.act("n=%d pattern=%d history=%d", n, pat, hist);
  if (hist == 2) { vector<double> r(w.rbegin(), w.rend()); p.ListOfSamplesSet(list(r)); Sample<T> s(X::dim); mc::rng.uni = []() { return 0.5; }; p.SampleFrom(s); p.ListOfSamplesUpdate(list(w)); }
  else if (hist == 3) { vector<double> r = so::pattern(n + 7, pat); p.ListOfSamplesSet(list(r)); p.NumSamplesSet(n); p.ListOfSamplesUpdate(list(w)); }
  else p.ListOfSamplesSet(list(w));
  c.state(mc::H()(w)(hist));
  so::measure_check(c, [&]() { return P<X>::one(p); }, w, "single draw");
  if (hist == 0) {
    MCPdf<T> e(p); so::measure_check(c, [&]() { return P<X>::one(e); }, w, "copy"); MCPdf<T> f(1, X::dim); f = p; so::measure_check(c, [&]() { return P<X>::one(f); }, w, "assigned"); std::unique_ptr<MCPdf<T>> g(p.Clone()); so::measure_check(c, [&]() { return P<X>::one(*g); }, w, "clone");
  } else if (hist == 1) {
    so::measure_check(c, [&]() { return P<X>::many(p, 1, SampleMthd::RIPLEY, 0)[0]; }, w, "ordered-uniform list of one"); so::measure_check(c, [&]() { return P<X>::many(p, 1, SampleMthd::DEFAULT, 2)[0]; }, w, "list of one");
    for (unsigned len : {2u, 3u, 7u, 40u}) so::measure_check(c, [&]() { return P<X>::many(p, len, SampleMthd::DEFAULT, 2)[len - 1]; }, w, "last of a list");
  }
}
SCENARIO(shares_vec, 8) { shares<TVec<2>>(c, {1, 2, 3, 4, 7, 8, 16, 31, 64, 130}); }
SCENARIO(shares_int, 8) { shares<TInt>(c, {1, 2, 3, 5, 9, 20, 128}); }
SCENARIO(shares_uns, 4) { shares<TUns>(c, {1, 3, 6, 24}); }
SCENARIO(shares_dbl, 4) { shares<TDbl>(c, {1, 3, 6, 24}); }

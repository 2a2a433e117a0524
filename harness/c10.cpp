// C10: sampling from a mixture: components in proportion to their weights, for every answer of the random source
#include "mc_main.h"
#include "bflref.h"
#include "sampling.h"
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
#include <pdf/mcpdf.h>
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt; using MatrixWrapper::ColumnVector;
// a component whose sample is its own tag; refuses anything but default single draws
struct TagPdf : public Pdf<ColumnVector> {
  int tag; TagPdf(int t) : Pdf<ColumnVector>(2), tag(t) {}
  TagPdf* Clone() const { return new TagPdf(*this); }
  virtual bool SampleFrom(Sample<ColumnVector>& s, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { if (m != SampleMthd::DEFAULT) return false; ColumnVector v(2); v(1) = tag; v(2) = -tag; s.ValueSet(v); return true; }
  virtual bool SampleFrom(vector<Sample<ColumnVector>>& l, const unsigned n, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const { return Pdf<ColumnVector>::SampleFrom(l, n, m, a); }
};
typedef Mixture<ColumnVector> M;
static int key(const Sample<ColumnVector>& s) { const ColumnVector& v = s.ValueGet(); if (v.rows() != 2 || v(2) != -v(1)) return -1; return (int)v(1); }
static int one(const M& m) { Sample<ColumnVector> s(2); ColumnVector z(2); z = 77.0; s.ValueSet(z); if (!m.SampleFrom(s)) return -2; return key(s); }
static vector<int> many(const M& m, unsigned k, SampleMthd mt, size_t pre) { vector<Sample<ColumnVector>> l(pre); if (!m.SampleFrom(l, k, mt)) return vector<int>(k, -2); vector<int> r; for (auto& s : l) r.push_back(key(s)); return r; }
static std::unique_ptr<M> mk(const vector<int>& w) { vector<Pdf<ColumnVector>*> v; vector<Probability> p; for (size_t i = 0; i < w.size(); i++) { v.push_back(new TagPdf((int)i)); p.push_back(w[i]); } std::unique_ptr<M> m(new M(v)); for (auto q : v) delete q; m->WeightsSet(p); return m; }
SCENARIO(single, 8)
{
  int n = 1 + c.choose(4, "n"); vector<int> w = so::weights(c, n, c.thorough ? 10 : 8); auto m = mk(w); c.state(mc::H()(w)); so::one_check(c, [&]() { return one(*m); }, w, "single draw");
}
SCENARIO(lists, 8)
{
  int n = 1 + c.choose(3, "n"); vector<int> w = so::weights(c, n, 4); int r = c.choose(2, "method"); unsigned num = 1 + c.choose(3, "num"); SampleMthd mt = r ? SampleMthd::RIPLEY : SampleMthd::DEFAULT; auto m = mk(w); c.state(mc::H()(w)(r)(num)); c.act("lists");
  int G = num == 1 ? 64 : num == 2 ? 48 : (c.thorough ? 32 : 16); size_t t = 0; so::list_check(c, [&](unsigned k) { t++; return many(*m, k, mt, (5 * t) % (2 * k + 1)); }, w, num, G, r && num > 1 ? 2.5 / G : 1e-9, r ? "ordered-uniform list" : "list");
}
SCENARIO(ripley_large, 4)
{
  static const unsigned nums[] = {1, 2, 3, 5, 10, 64, 100, 1000}; static const double as[] = {0.0, 0.25, 0.5, 0.75, so::LAST};
  unsigned num = nums[c.choose(8, "num")]; int n = 2 + c.choose(4, "n"), z = c.choose(n + 1, "zero"); vector<int> w(n, 2); if (z < n) w[z] = 0; double a = as[c.choose(5, "answer")]; auto m = mk(w); c.state(mc::H()(w)(num)(a));
  so::equal_answers_check(c, [&](unsigned k) { return many(*m, k, SampleMthd::RIPLEY, 0); }, w, num, a, "ordered-uniform list");
}
SCENARIO(sizes, 4)
{
  static const int sz[] = {1, 2, 5, 8, 9, 16, 33, 100}; int n = sz[c.choose(8, "n")], pat = c.choose(4, "pattern"); vector<int> w(n); for (int i = 0; i < n; i++) w[i] = pat == 0 ? 1 : pat == 1 ? (i % 2 ? 0 : 3) : pat == 2 ? (i == n - 1 ? 5 : 0) : (i * 3) % 4; int s = 0; for (int x : w) s += x; if (!s) w[0] = 1;
  auto m = mk(w); c.state(mc::H()(w)); so::one_check(c, [&]() { return one(*m); }, w, "single draw"); so::list_check(c, [&](unsigned k) { return many(*m, k, SampleMthd::RIPLEY, 0); }, w, 1, 2 * (s ? s : 1), 1e-9, "ripley 1");
}
// drawing follows the current components and weights after every short history
SCENARIO(history, 8)
{
  vector<int> w{2, 4, 2}, tag{0, 1, 2}; auto m = mk(w); int next = 3;
  for (int k = 0; k < (c.thorough ? 4 : 3); k++) {
    int n = (int)w.size(), tot = 8, op = c.choose(7, "op");
    auto setall = [&](const vector<int>& v) { vector<Probability> p; for (int x : v) p.push_back(x); c.ok(m->WeightsSet(p), "refused"); w = v; };
    if (op == 0 && n > 1) { c.act("delete first"); m->DeleteComponent(0); w.erase(w.begin()); tag.erase(tag.begin()); int s = 0; for (int x : w) s += x; if (!s) { w.assign(w.size(), 1); } }
    else if (op == 1 && n > 1) { c.act("delete last"); m->DeleteComponent(n - 1); w.pop_back(); tag.pop_back(); int s = 0; for (int x : w) s += x; if (!s) w.assign(w.size(), 1); }
    else if (op == 2 && n < 4) { c.act("add without weight"); TagPdf t(next); m->AddComponent(t); w.push_back(0); tag.push_back(next++); }
    else if (op == 3 && n < 4) { c.act("add with weight 1/2"); TagPdf t(next); m->AddComponent(t, Probability(0.5)); int s = 0; for (int x : w) s += x; w.push_back(s); tag.push_back(next++); }
    else if (op == 4) { c.act("set weight 1 of the first"); m->WeightSet(0, Probability(1.0)); w.assign(n, 0); w[0] = tot; }
    else if (op == 5) { c.act("reverse weights"); vector<int> v(n); for (int i = 0; i < n; i++) v[i] = n - i; setall(v); }
    else { c.act("refused weights"); vector<Probability> p(n, Probability(0.0)); c.ok(!m->WeightsSet(p), "accepted zero weights"); }
    M e(*m), f(2u); f = *m; std::unique_ptr<M> g(m->Clone()); const M* q[] = {m.get(), &e, &f, g.get()};
    int mx = 0; for (int t : tag) mx = std::max(mx, t); vector<int> W(mx + 1, 0); for (size_t i = 0; i < tag.size(); i++) W[tag[i]] = w[i]; c.state(mc::H()(W)(tag));
    // cumulative order follows the components, so compare per tag
    for (int i = 0; i < 4; i++) so::one_check(c, [&]() { return one(*q[i]); }, W, i ? "copy" : "after history");
    so::list_check(c, [&](unsigned k) { return many(*m, k, SampleMthd::RIPLEY, 0); }, W, 2, 16, 0.16, "ripley after history");
  }
}
// real components: the sample is a draw of the selected component
SCENARIO(real_components, 4)
{
  vector<int> w = so::weights(c, 3, 4); ref::Mat mu[2] = {ref::col({1, 2}), ref::col({-5, 0.5})}; ref::Mat S = ref::mat(2, 2, {4, 0, 0, 9}); MCPdf<ColumnVector> mcp(2, 2); { vector<WeightedSample<ColumnVector>> l; for (int i = 0; i < 2; i++) { WeightedSample<ColumnVector> s(2); s.ValueSet(br::cv(ref::col({100.0 + i, 7}))); s.WeightSet(1); l.push_back(s); } mcp.ListOfSamplesSet(l); }
  Gaussian g0(br::cv(mu[0]), br::sm(S)), g1(br::cv(mu[1]), br::sm(S)); vector<Pdf<ColumnVector>*> v{&g0, &g1, &mcp}; M m(v); vector<Probability> p; for (int x : w) p.push_back(x); m.WeightsSet(p); c.state(mc::H()(w));
  int meth = c.choose(2, "list"); vector<int> cnt(3, 0);
  for (int k = 0; k < 4; k++) for (int e = 0; e < 3; e++) {
    long calls = 0; mc::rng.uni = [&]() { return calls++ == 0 ? (k + 0.5) / 4 : 0.75; }; mc::rng.norm = [&]() { return e - 1.0; }; vector<Sample<ColumnVector>> l; Sample<ColumnVector> s(2);
    if (meth) { c.ok(m.SampleFrom(l, 1, SampleMthd::RIPLEY), "list refused"); s = l[0]; } else c.ok(m.SampleFrom(s), "refused"); ref::Mat x = br::from(s.ValueGet()); c.act("draw"); c.eq(x.r, 2, "dimension");
    int which = -1; for (int i = 0; i < 2; i++) if (std::fabs((double)(x(0) - mu[i](0)) - 2 * (e - 1)) < 1e-9 && std::fabs((double)(x(1) - mu[i](1)) - 3 * (e - 1)) < 1e-9) which = i; if (std::fabs((double)x(0) - 101) < 1e-9 && x(1) == 7) which = 2;
    c.ok(which >= 0, "the sample is not a draw of one component"); c.ok(w[which] > 0, "component of weight zero drawn"); cnt[which]++; }
  for (int i = 0; i < 3; i++) c.eq(cnt[i], 3 * w[i], "proportion of a component");
}
SCENARIO(discrete_mixture, 4)
{
  vector<int> w = so::weights(c, 3, 4); c.choose(1, ""); DiscretePdf d[3] = {DiscretePdf(3), DiscretePdf(3), DiscretePdf(3)}; vector<Pdf<int>*> v; for (int i = 0; i < 3; i++) { vector<Probability> p(3, Probability(0.0)); p[(i + 1) % 3] = 1.0; d[i].ProbabilitiesSet(p); v.push_back(&d[i]); }
  Mixture<int> m(v); vector<Probability> p; for (int x : w) p.push_back(x); m.WeightsSet(p); c.state(mc::H()(w)(1));
  so::one_check(c, [&]() { Sample<int> s; s.ValueSet(-7); if (!m.SampleFrom(s)) return -2; return s.ValueGet() < 0 ? -1 : (s.ValueGet() + 2) % 3; }, w, "discrete mixture");
  so::list_check(c, [&](unsigned k) { vector<Sample<int>> l; vector<int> r; if (!m.SampleFrom(l, k, SampleMthd::RIPLEY)) return vector<int>(k, -2); for (auto& s : l) r.push_back((s.ValueGet() + 2) % 3); return r; }, w, 1, 32, 1e-9, "discrete mixture list");
}
// exact share of every component, at many sizes and weights of very different size
static std::unique_ptr<M> mkd(const vector<double>& w) { vector<Pdf<ColumnVector>*> v; vector<Probability> p; for (size_t i = 0; i < w.size(); i++) { v.push_back(new TagPdf((int)i)); p.push_back(w[i]); } std::unique_ptr<M> m(new M(v)); for (auto q : v) delete q; m->WeightsSet(p); return m; }
SCENARIO(shares, 8)
{
  static const int ns[] = {1, 2, 3, 4, 7, 8, 16, 31, 64}; int n = ns[c.choose(9, "n")], pat = c.choose(so::PATTERNS, "pattern"), hist = c.choose(5, "history"); vector<double> w = so::pattern(n, pat); c.act("n=%d pattern=%d history=%d", n, pat, hist);
  std::unique_ptr<M> m; double W = 0; for (double x : w) W += x;
  if (hist == 0) m = mkd(w);
  else if (hist == 1) { vector<double> r(w.rbegin(), w.rend()); m = mkd(r); mc::rng.uni = []() { return 0.5; }; one(*m); vector<Probability> p; for (double x : w) p.push_back(x); c.ok(m->WeightsSet(p), "refused"); }
  else if (hist == 2) {   // grown one by one
    m.reset(new M(2u)); double sofar = 0;
    for (int i = 0; i < n; i++) { TagPdf t(i); if (sofar == 0) { if (i == 0) m->AddComponent(t, Probability(1.0)); else { m->AddComponent(t); if (w[i] > 0) m->WeightSet(i, Probability(1.0)); } } else m->AddComponent(t, Probability(w[i] / (sofar + w[i]))); sofar += w[i]; }
    if (pat == 6) { c.state(mc::H()(w)(hist)); }
  } else if (hist == 3) {  // shrunk from a larger one: a component of weight zero removed
    vector<double> r(w); r.insert(r.begin() + n / 2, 0.0); m = mkd(r); c.ok(m->DeleteComponent(n / 2), "delete refused"); vector<double> W2(n + 1, 0.0); W2 = r; w = r;
  } else m = mkd(w);
  c.state(mc::H()(w)(hist));
  so::measure_check(c, [&]() { return one(*m); }, w, "single draw");
  if (hist == 0) { M e(*m); so::measure_check(c, [&]() { return one(e); }, w, "copy"); M f(2u); f = *m; so::measure_check(c, [&]() { return one(f); }, w, "assigned"); std::unique_ptr<M> g(m->Clone()); so::measure_check(c, [&]() { return one(*g); }, w, "clone"); }
  if (hist == 4) {
    so::measure_check(c, [&]() { return many(*m, 1, SampleMthd::RIPLEY, 0)[0]; }, w, "ordered-uniform list of one"); so::measure_check(c, [&]() { return many(*m, 1, SampleMthd::DEFAULT, 2)[0]; }, w, "list of one");
    for (unsigned len : {2u, 3u, 7u, 40u}) so::measure_check(c, [&]() { return many(*m, len, SampleMthd::DEFAULT, 2)[len - 1]; }, w, "last of a list");
  }
}

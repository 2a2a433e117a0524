// C09: a mixture stays a normalised mixture of exactly its components after every history
#include "mc_main.h"
#include "bflref.h"
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
#include <pdf/mcpdf.h>
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt; using MatrixWrapper::ColumnVector; using MatrixWrapper::SymmetricMatrix;

// components are identified by a tag; every component type has its own density and mean
struct Comp { int tag; double w; };
typedef vector<Comp> Model;
static long live = 0;                                                    // component objects alive
struct TagPdf : public Pdf<ColumnVector> {
  int tag; TagPdf(int t) : Pdf<ColumnVector>(2), tag(t) { live++; } TagPdf(const TagPdf& o) : Pdf<ColumnVector>(o), tag(o.tag) { live++; } ~TagPdf() { live--; }
  TagPdf* Clone() const { return new TagPdf(*this); }
  Probability ProbabilityGet(const ColumnVector& x) const { return Probability(dens(tag, x(1))); }
  ColumnVector ExpectedValueGet() const { ColumnVector m(2); m(1) = tag * 1.5 - 2; m(2) = 10.0 + tag * tag; return m; }
  static double dens(int t, double x) { return (t + 1) / (1 + (x - t) * (x - t)); }
};
struct TTag { typedef ColumnVector T; enum { dim = 2 };
  static Pdf<T>* make(int t) { return new TagPdf(t); }
  static double dens(int t, int q) { return TagPdf::dens(t, q * 0.75 - 1); } static T at(int q) { T x(2); x(1) = q * 0.75 - 1; x(2) = 4; return x; }
  static ref::Mat mean(int t) { return ref::col({t * 1.5 - 2, 10.0 + t * t}); }
  static bool hasTag(Pdf<T>* p, int t) { TagPdf* q = dynamic_cast<TagPdf*>(p); return q && q->tag == t; } static ref::Mat vec(const T& x) { return br::from(x); } };
struct TGauss { typedef ColumnVector T; enum { dim = 2 };
  static ref::Mat mu(int t) { return ref::col({t * 1.0 - 1, 0.5 * t}); } static ref::Mat S(int t) { return ref::mat(2, 2, {1.0 + t, 0.3, 0.3, 0.5 + 0.25 * t}); }
  static Pdf<T>* make(int t) { if (t % 4 == 3) { MCPdf<T>* p = new MCPdf<T>(2, 2); vector<WeightedSample<T>> l; for (int i = 0; i < 2; i++) { WeightedSample<T> s(2); s.ValueSet(br::cv(ref::col({t + i * 2.0, 1.0 - i}))); s.WeightSet(1 + 2 * i); l.push_back(s); } p->ListOfSamplesSet(l); return p; } return new Gaussian(br::cv(mu(t)), br::sm(S(t))); }
  static ref::Mat mean(int t) { if (t % 4 == 3) return ref::col({t + 1.5, 0.25}); return mu(t); }
  static double dens(int t, int q) { return t % 4 == 3 ? 0 : (double)ref::gauss_pdf(br::from(at(q)), mu(t), S(t)); } static T at(int q) { return br::cv(ref::col({q * 0.75 - 1, 0.25 * q})); }
  static bool hasTag(Pdf<T>* p, int t) { ref::Mat m = br::from(p->ExpectedValueGet()); ref::Mat w = mean(t); return std::fabs((double)(m(0) - w(0))) < 1e-9 && std::fabs((double)(m(1) - w(1))) < 1e-9; } static ref::Mat vec(const T& x) { return br::from(x); } };
struct TDisc { typedef int T; enum { dim = 1 };
  static vector<double> pr(int t) { switch (t % 4) { case 0: return {0.5, 0.3, 0.2}; case 1: return {0, 1, 0}; case 2: return {0.25, 0.25, 0.5}; default: return {0.1, 0.15, 0.75}; } }
  static Pdf<T>* make(int t) { DiscretePdf* d = new DiscretePdf(3); vector<Probability> v; for (double x : pr(t)) v.push_back(x); d->ProbabilitiesSet(v); return d; }
  static double dens(int t, int q) { return q < 3 ? pr(t)[q] : -1; } static T at(int q) { return q; }
  static bool hasTag(Pdf<T>* p, int t) { for (int i = 0; i < 3; i++) if (std::fabs((double)p->ProbabilityGet(i) - pr(t)[i]) > 1e-12) return false; return true; } };
template <class X> struct ExpChk { static void go(Ctx& c, const Mixture<typename X::T>& m, const Model& r)
  { ref::Mat s(2, 1); for (auto& k : r) s = s + X::mean(k.tag) * k.w; br::same(c, X::vec(m.ExpectedValueGet()), s, "expected value"); } };
template <> struct ExpChk<TDisc> { static void go(Ctx& c, const Mixture<int>& m, const Model& r)
  { double p[3], best = -1; for (int j = 0; j < 3; j++) { p[j] = 0; for (auto& k : r) p[j] += k.w * TDisc::pr(k.tag)[j]; best = std::max(best, p[j]); } int e = m.ExpectedValueGet(); c.ok(e >= 0 && e < 3 && p[e] >= best - 1e-12, "expected value of a discrete mixture is not a most probable state"); } };
template <class X> static void check(Ctx& c, const Mixture<typename X::T>& m, const Model& r, const char* who, bool relative = false)
{
  c.eq((long)m.NumComponentsGet(), (long)r.size(), fmt("%s: number of components", who).c_str()); c.eq((long)m.DimensionGet(), (long)X::dim, "dimension"); if (r.empty()) return;
  vector<Probability> all = m.WeightsGet(); vector<Pdf<typename X::T>*> cs = m.ComponentsGet(); c.eq((long)all.size(), (long)r.size(), "number of weights"); c.eq((long)cs.size(), (long)r.size(), "number of component pdfs");
  double s = 0, best = -1; for (auto& k : r) best = std::max(best, k.w);
  for (size_t i = 0; i < r.size(); i++) {
    double w = (double)m.WeightGet((unsigned)i); c.near(w, r[i].w, fmt("%s: weight of component %zu of %zu", who, i, r.size()).c_str()); if (relative) c.ok(std::fabs(w - r[i].w) <= 1e-7 * r[i].w + 1e-200, fmt("%s: weight of component %zu of %zu is %.15g, expected %.15g", who, i, r.size(), w, r[i].w)); c.ok(w == (double)all[i], "weight queries disagree"); c.ok(w >= 0, "negative weight"); s += w;
    c.ok(cs[i] == m.ComponentGet((unsigned)i), "component queries disagree"); c.ok(X::hasTag(cs[i], r[i].tag), fmt("%s: component %zu is not the one that was added", who, i));
    for (size_t j = 0; j < i; j++) c.ok(cs[i] != cs[j], "two components share one object");
  }
  c.near(s, 1, fmt("%s: sum of the weights", who).c_str());
  int mp = m.MostProbableComponentGet(); c.ok(mp >= 0 && mp < (int)r.size() && r[mp].w >= best - 1e-9, "most probable component"); for (int i = 0; i < mp; i++) c.ok((double)all[i] < (double)all[mp], "the first of equally probable components must be returned");
  for (int q = 0; q < 5; q++) { double d = 0; bool ok = true; for (auto& k : r) { double x = X::dens(k.tag, q); if (x < 0) ok = false; d += k.w * x; } bool mcomp = false; for (auto& k : r) if (!std::is_same<X, TGauss>::value) ; else if (k.tag % 4 == 3) mcomp = true; if (ok && !mcomp) c.near((double)m.ProbabilityGet(X::at(q)), d, fmt("%s: density", who).c_str()); }
  ExpChk<X>::go(c, m, r);
}
static void wset(Model& r, size_t i, double w)
{ double o = 0; for (size_t j = 0; j < r.size(); j++) if (j != i) o += r[j].w; if (r.size() == 1) { r[0].w = 1; return; } for (size_t j = 0; j < r.size(); j++) if (j != i) r[j].w = o > 0 ? r[j].w * (1 - w) / o : (1 - w) / (r.size() - 1); r[i].w = w; }
static void norm(Model& r) { double s = 0; for (auto& k : r) s += k.w; if (s > 0) for (auto& k : r) k.w /= s; else for (auto& k : r) k.w = 1.0 / r.size(); }
// one operation; op < nops(r)
template <class X> static int nops(const Model& r, int maxn) { int n = (int)r.size(); return (n < maxn ? 5 : 0) + n + 3 * n + (n ? 6 : 0) + 4; }
template <class X> static void step(Ctx& c, Mixture<typename X::T>& m, Model& r, int op, int& tag, int maxn, long& copies)
{
  int n = (int)r.size(); typedef typename X::T T; (void)copies;
  if (n < maxn) {
    if (op < 5) {
      static const double ws[] = {-1, 0, 0.25, 0.999, 1}; std::unique_ptr<Pdf<T>> p(X::make(tag)); c.act("add component %d weight %g", tag, ws[op]);
      bool ret = op == 0 ? m.AddComponent(*p) : m.AddComponent(*p, Probability(ws[op])); c.ok(ret, "adding a component refused");
      double w = n == 0 ? 1 : op == 0 ? 0 : ws[op]; r.push_back(Comp{tag, 0}); if (n == 0) r[0].w = 1; else wset(r, n, w); tag++; return;
    }
    op -= 5;
  }
  if (op < n) { c.act("delete component %d", op); c.ok(m.DeleteComponent(op), "deleting a component refused"); r.erase(r.begin() + op); if (!r.empty()) norm(r); return; } op -= n;
  if (op < 3 * n) { static const double ws[] = {0, 0.4, 1}; int i = op / 3; double w = ws[op % 3]; c.act("weight of %d := %g", i, w); c.ok(m.WeightSet(i, Probability(w)), "setting a weight refused"); wset(r, i, w); return; } op -= 3 * n;
  if (n) {
    if (op < 6) {
      vector<Probability> v(n); Model t = r; for (int i = 0; i < n; i++) { double x = op == 0 ? 1 : op == 1 ? i + 1 : op == 2 ? (i == n - 1 ? 7 : 0) : op == 3 ? 1e-300 * (i + 1) : op == 4 ? 0 : (i % 2 ? 1e9 : 1e-9); v[i] = x; t[i].w = x; }
      vector<Probability> keep = v; c.act("weights := #%d", op); bool ret = m.WeightsSet(v); double s = 0; for (auto& k : t) s += k.w; c.ok(ret == (s > 0), fmt("setting weights returned %d", (int)ret));
      for (int i = 0; i < n; i++) c.ok((double)v[i] == (double)keep[i], "the caller's weights were modified"); if (s > 0) { norm(t); r = t; } return;
    }
    op -= 6;
  }
  switch (op) {
    case 0: { c.act("copy, change the copy"); Mixture<T> q(m); check<X>(c, q, r, "copy"); std::unique_ptr<Pdf<T>> p(X::make(tag)); q.AddComponent(*p, Probability(0.5)); if (n) q.DeleteComponent(0); break; }
    case 1: { c.act("clone, then change the original"); std::unique_ptr<Mixture<T>> q(m.Clone()); Model before = r; if (n) { m.WeightSet(0, Probability(0.125)); wset(r, 0, 0.125); } check<X>(c, *q, before, "clone"); break; }
    case 2: { c.act("assign to another mixture, destroy it"); Mixture<T> q((unsigned)X::dim); std::unique_ptr<Pdf<T>> p(X::make(tag)); q.AddComponent(*p); q = m; check<X>(c, q, r, "assigned"); q = q; check<X>(c, q, r, "self-assigned"); if (n) { q.WeightSet(n - 1, Probability(0.0)); q.DeleteComponent(0); } break; }
    default: { c.act("replace by an assigned copy"); Mixture<T> q(m); Mixture<T> e((unsigned)X::dim); m = e; check<X>(c, m, Model(), "emptied"); m = q; break; }
  }
}
template <class X> static void hist(Ctx& c, int depth, int maxn, bool start3)
{
  long live0 = live;
  { typedef typename X::T T; Model r; int tag = 0; long copies = 0; std::unique_ptr<Mixture<T>> m;
    int start = c.choose(start3 ? 4 : 1, "start");
    if (start == 0) m.reset(new Mixture<T>((unsigned)X::dim));
    else { vector<Pdf<T>*> v; for (int i = 0; i < start; i++) { v.push_back(X::make(tag)); r.push_back(Comp{tag, 1.0 / start}); tag++; } m.reset(new Mixture<T>(v)); for (auto p : v) delete p; }
    check<X>(c, *m, r, "constructed");
    for (int k = 0; k < depth; k++) { step<X>(c, *m, r, c.choose(nops<X>(r, maxn), "op"), tag, maxn, copies); check<X>(c, *m, r, fmt("step %d", k + 1).c_str()); mc::H h; for (auto& q : r) { h(q.tag)(q.w); } c.state(h); } }
  c.eq(live, live0, "component objects alive after all mixtures are gone");
}
SCENARIO(tagged, 8) { hist<TTag>(c, c.thorough ? 5 : 4, 3, false); }
SCENARIO(tagged_started, 8) { hist<TTag>(c, c.thorough ? 4 : 3, 4, true); }
SCENARIO(gaussians, 8) { hist<TGauss>(c, 3, 3, true); }
SCENARIO(discrete, 8) { hist<TDisc>(c, 3, 4, true); }
// every size: set each weight / delete each component
SCENARIO(sizes, 4)
{
  static const int sz[] = {1, 2, 3, 5, 8, 9, 10, 16, 17, 33, 64}; int n = sz[c.choose(11, "n")], what = c.choose(4, "op"), i0 = c.choose(3, "where"); int i = i0 == 0 ? 0 : i0 == 1 ? n / 2 : n - 1;
  vector<Pdf<ColumnVector>*> v; Model r; for (int k = 0; k < n; k++) { v.push_back(new TagPdf(k)); r.push_back(Comp{k, 1.0 / n}); } Mixture<ColumnVector> m(v); for (auto p : v) delete p; check<TTag>(c, m, r, "constructed");
  vector<Probability> w(n); for (int k = 0; k < n; k++) { w[k] = (k * 7) % 5; r[k].w = (k * 7) % 5; } double s = 0; for (auto& k : r) s += k.w; if (s > 0) { c.ok(m.WeightsSet(w), "refused"); norm(r); } else r[0].w = 1; check<TTag>(c, m, r, "weights set");
  c.act("n=%d op %d at %d", n, what, i);
  if (what == 0) { m.WeightSet(i, Probability(0.3)); wset(r, i, 0.3); } else if (what == 1) { m.DeleteComponent(i); r.erase(r.begin() + i); if (!r.empty()) norm(r); } else if (what == 2) { m.WeightSet(i, Probability(1.0)); wset(r, i, 1); check<TTag>(c, m, r, "all weight"); m.WeightSet(i, Probability(0.5)); wset(r, i, 0.5); } else { m.WeightSet(i, Probability(0.0)); wset(r, i, 0); }
  check<TTag>(c, m, r, "changed"); mc::H h; for (auto& q : r) { h(q.tag)(q.w); } c.state(h);
}
// weights of extreme or deceptive size (sums next to one, tiny beside large, hardly representable), at many sizes, through every way of getting them in
static void extreme(Model& r, int kind)
{
  int n = (int)r.size(); double base = n * (n + 1) / 2.0;
  for (int i = 0; i < n; i++) switch (kind) {
    case 0: r[i].w = (i + 1) / base * (1 + 4e-7); break;
    case 1: r[i].w = (i + 1) / base * (1 - 6e-9); break;
    case 2: r[i].w = (n - i) / base * (1 + 3e-12); break;
    case 3: r[i].w = i == n / 2 ? 1 : 1e-12 * (i + 1); break;
    case 4: r[i].w = i == 0 ? 1 : 1e-18 * (i + 1); break;
    case 5: r[i].w = (i + 1) * 1e-304; break;
    case 6: r[i].w = (i % 3 + 1) * 1e299; break;
    case 7: r[i].w = i == 0 ? 5000 : 1; break;
    case 8: r[i].w = i == n - 1 ? 1e-30 : 1e-10; break;
    default: r[i].w = 1.0 / n;
  }
}
template <class X> static void magnitudes(Ctx& c, std::initializer_list<int> ns)
{
  typedef typename X::T T; vector<int> nn(ns); int n = nn[c.choose((int)nn.size(), "n")], kd = c.choose(10, "kind"), path = c.choose(5, "path"), after = c.choose(4, "after"); Model r; vector<Pdf<T>*> v; c.act("n=%d kind=%d path=%d after=%d", n, kd, path, after);
  for (int k = 0; k < n; k++) { v.push_back(X::make(k)); r.push_back(Comp{k, 1.0 / n}); } std::unique_ptr<Mixture<T>> m;
  if (path == 2) { m.reset(new Mixture<T>((unsigned)X::dim)); for (int k = 0; k < n; k++) { c.ok(k % 2 ? m->AddComponent(*v[k], Probability(0.3)) : m->AddComponent(*v[k]), "adding refused"); } } else m.reset(new Mixture<T>(v));
  for (auto p : v) delete p;
  if (path == 1) { vector<Probability> w(n); for (int k = 0; k < n; k++) w[k] = k + 1; c.ok(m->WeightsSet(w), "refused"); }
  if (path == 3 && n > 1) { m->WeightSet(0, Probability(1.0)); m->WeightsGet(); }
  extreme(r, kd); vector<Probability> w(n); for (int k = 0; k < n; k++) w[k] = r[k].w; c.ok(m->WeightsSet(w), "refused"); norm(r); check<X>(c, *m, r, "extreme weights", true);
  if (path == 4) { c.ok(m->WeightsSet(w), "refused"); check<X>(c, *m, r, "set again", true); }
  { Mixture<T> q(*m); check<X>(c, q, r, "copy", true); Mixture<T> z((unsigned)X::dim); z = *m; check<X>(c, z, r, "assigned", true); std::unique_ptr<Mixture<T>> y(m->Clone()); check<X>(c, *y, r, "clone", true); }
  if (after == 1) { std::unique_ptr<Pdf<T>> p(X::make(n)); c.ok(m->AddComponent(*p, Probability(0.25)), "adding refused"); for (auto& k : r) k.w *= 0.75; r.push_back(Comp{n, 0.25}); check<X>(c, *m, r, "grown", true); }
  else if (after == 2 && n > 1) { int i = (kd == 3 ? n / 2 : 0); double left = 0; for (int k = 0; k < n; k++) if (k != i) left += r[k].w; if (left > 1e-3) { c.ok(m->DeleteComponent(i), "refused"); r.erase(r.begin() + i); norm(r); check<X>(c, *m, r, "shrunk", true); } }
  else if (after == 3) { std::unique_ptr<Pdf<T>> p(X::make(n)); c.ok(m->AddComponent(*p), "adding refused"); r.push_back(Comp{n, 0.0}); check<X>(c, *m, r, "grown without weight", true); c.ok(m->DeleteComponent(n), "refused"); r.pop_back(); check<X>(c, *m, r, "taken away again", true); }
  mc::H h; for (auto& q : r) { h(q.tag)(q.w); } c.state(h);
}
SCENARIO(magnitudes_tag, 8) { magnitudes<TTag>(c, {1, 2, 3, 5, 6, 9, 17, 40}); }
SCENARIO(magnitudes_disc, 4) { magnitudes<TDisc>(c, {1, 2, 3, 5, 6, 9, 17}); }
SCENARIO(magnitudes_gauss, 4) { magnitudes<TGauss>(c, {1, 2, 3, 5, 6, 9}); }
// long histories: every word of length <= 2 (operations by position), repeated to 60 steps
SCENARIO(periodic, 8)
{
  int len = 1 + c.choose(2, "len"); vector<int> word; for (int i = 0; i < len; i++) word.push_back(c.choose(24, "op")); c.choose(1, "");
  Model r; int tag = 0; long cp = 0; vector<Pdf<ColumnVector>*> v; for (; tag < 3; tag++) { v.push_back(new TagPdf(tag)); r.push_back(Comp{tag, 1.0 / 3}); } Mixture<ColumnVector> m(v); for (auto p : v) delete p;
  for (int k = 0; k < 60; k++) { step<TTag>(c, m, r, word[k % len] % nops<TTag>(r, 4), tag, 4, cp); if (tag > 40) tag = 0; check<TTag>(c, m, r, fmt("step %d", k + 1).c_str()); }
  mc::H h; for (auto& q : r) { h(q.tag)(q.w); } c.state(h);
}
// two mixtures used alternately
SCENARIO(interleaved, 8)
{
  Model r[2]; int tag = 0; long cp = 0; Mixture<ColumnVector> m[2] = {Mixture<ColumnVector>(2u), Mixture<ColumnVector>(2u)};
  for (int k = 0; k < 3; k++) { std::unique_ptr<Pdf<ColumnVector>> p(TTag::make(tag)); int w = k % 2; m[w].AddComponent(*p, Probability(0.25 + 0.25 * k)); if (r[w].empty()) r[w].push_back(Comp{tag, 1}); else { r[w].push_back(Comp{tag, 0}); wset(r[w], r[w].size() - 1, 0.25 + 0.25 * k); } tag++; }
  for (int k = 0; k < 3; k++) { int w = c.choose(2, "mixture"); step<TTag>(c, m[w], r[w], c.choose(nops<TTag>(r[w], 3), "op"), tag, 3, cp); check<TTag>(c, m[0], r[0], "mixture 1"); check<TTag>(c, m[1], r[1], "mixture 2"); mc::H h; for (auto& q : r[w]) { h(q.tag)(q.w); } c.state(h); }
}

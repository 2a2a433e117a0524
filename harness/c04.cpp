// C04: the histogram filter is the exact Bayes recursion for every history of updates
#include "mc_main.h"
#include "bflref.h"
#include <filter/histogramfilter.h>
#include <model/discretesystemmodel.h>
#include <pdf/discreteconditionalpdf.h>
#include <pdf/gaussian.h>
#include <pdf/conditionalpdf.h>
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt; using MatrixWrapper::ColumnVector;
typedef vector<double> V; typedef vector<V> VV;

// column-stochastic transition tables A[to][from]; `kind` selects structurally different ones
static VV sysm(int n, int kind)
{
  VV a(n, V(n, 0.0));
  for (int f = 0; f < n; f++) switch (kind) {
    case 0: a[(f + 1) % n][f] = 1; break;                                            // rotation
    case 1: for (int t = 0; t < n; t++) a[t][f] = (1.0 + ((t * 3 + f * 5) % 7)); break;  // dense
    case 2: a[0][f] += 0.75; a[f][f] += 0.25; break;                                  // drains to state 0
    case 3: a[f][f] = 1; break;                                                       // identity
    default: for (int t = 0; t <= f; t++) a[t][f] = 1.0 + t; break;                   // triangular
  }
  for (int f = 0; f < n; f++) { double s = 0; for (int t = 0; t < n; t++) s += a[t][f]; for (int t = 0; t < n; t++) a[t][f] /= s; }
  return a;
}
// likelihood tables L[z][x], 3 measurements
static VV meas(int n, int kind)
{
  VV l(3, V(n, 0.0));
  for (int z = 0; z < 3; z++) for (int x = 0; x < n; x++) switch (kind) {
    case 0: l[z][x] = (z % n == x) ? 0.8 : 0.1; break;
    case 1: l[z][x] = (x + z) % 2 ? 0.0 : 0.5 + 0.1 * x; break;                       // zeros
    case 2: l[z][x] = ((x * 2 + z) % 3 + 1) * 1e-200; break;                          // tiny
    case 3: l[z][x] = ((x + 2 * z) % 4 + 1) * 3.0; break;                             // densities above one
    case 5: l[z][x] = z % n == x ? 1 : 1e-13; break;                                  // strong contrast
    case 6: l[z][x] = z % n == x ? 1e-150 : 2e-13 * (1 + x); break;
    case 7: l[z][x] = ((x * 2 + z) % 3 + 1) * 1e-303; break;                          // barely representable
    case 8: l[z][x] = ((x * 2 + z) % 3 + 1) * 1e300; break;
    default: l[z][x] = z == 0 ? 0.0 : (x + 1.0) / (n + 1);                            // z=0 impossible in every state
  }
  return l;
}
// a measurement pdf over an arbitrary measurement type given by a table, with or without sensor parameter
template <class MV> struct TablePdf : public ConditionalPdf<MV, int> {
  vector<VV> l; std::function<int(const MV&)> idx;
  TablePdf(int nargs, const vector<VV>& l_, std::function<int(const MV&)> i) : ConditionalPdf<MV, int>(1, nargs), l(l_), idx(i) {}
  virtual TablePdf* Clone() const { return new TablePdf(*this); }
  virtual Probability ProbabilityGet(const MV& z) const
  { int x = this->ConditionalArgumentGet(0); int s = this->NumConditionalArgumentsGet() == 2 ? this->ConditionalArgumentGet(1) : 0; return Probability(l[s][idx(z)][x]); }
};
struct Ref {
  V p;
  void sys(const VV& a) { V q(p.size(), 0.0); double s = 0; for (size_t t = 0; t < p.size(); t++) { for (size_t f = 0; f < p.size(); f++) q[t] += a[t][f] * p[f]; s += q[t]; } for (double& x : q) x /= s; p = q; }
  bool meas(const V& l) { V q = p; double s = 0; for (size_t i = 0; i < q.size(); i++) { q[i] *= l[i]; s += q[i]; } if (!(s > 0)) return false; for (double& x : q) x /= s; p = q; return true; }
};
template <class F> static void cmp(Ctx& c, F& f, const Ref& r, const char* who)
{
  DiscretePdf* d = f.PostGet(); c.ok(d != NULL, "no posterior"); c.eq(d->NumStatesGet(), r.p.size(), "number of states");
  double s = 0; vector<Probability> all = d->ProbabilitiesGet();
  for (size_t i = 0; i < r.p.size(); i++) { double q = (double)d->ProbabilityGet((int)i); c.ok(std::fabs(q - r.p[i]) <= 1e-7 * r.p[i] + 1e-280, fmt("%s: posterior of state %zu: got %.17g, expected %.17g", who, i, q, r.p[i])); c.ok(q == (double)all[i], "queries disagree"); s += q; }
  c.near(s, 1, "sum of the posterior");
}
static void prior_set(DiscretePdf& p, int kind, V& m)
{
  int n = (int)m.size(); vector<Probability> v(n);
  for (int i = 0; i < n; i++) v[i] = kind == 0 ? 1.0 : kind == 1 ? (i == n / 2 ? 1.0 : 0.0) : kind == 2 ? (double)(i + 1) : (i == n - 1 ? 1.0 : 1e-14 * (i + 1));
  double s = 0; for (auto& x : v) s += (double)x; for (int i = 0; i < n; i++) m[i] = (double)v[i] / s;
  p.ProbabilitiesSet(v);
}
template <class MV> struct World {
  int n; vector<VV> A; vector<vector<VV>> L;                      // models and their tables
  vector<std::unique_ptr<DiscreteConditionalPdf>> sp; vector<std::unique_ptr<DiscreteSystemModel>> sm;
  std::unique_ptr<DiscreteConditionalPdf> spu; std::unique_ptr<DiscreteSystemModel> smu; vector<VV> Au;
  vector<std::unique_ptr<TablePdf<MV>>> mp; vector<std::unique_ptr<MeasurementModel<MV, int>>> mm;
  std::unique_ptr<TablePdf<MV>> mps; std::unique_ptr<MeasurementModel<MV, int>> mms; vector<VV> Ls;
  World(int n_, const vector<int>& sk, const vector<int>& mk, std::function<int(const MV&)> idx) : n(n_)
  {
    int d1[1] = {n}, d2[2] = {n, 2};
    for (int k : sk) { VV a = sysm(n, k); A.push_back(a); sp.emplace_back(new DiscreteConditionalPdf(n, 1, d1)); for (int f = 0; f < n; f++) for (int t = 0; t < n; t++) sp.back()->ProbabilitySet(a[t][f], t, vector<int>(1, f)); sm.emplace_back(new DiscreteSystemModel(sp.back().get())); }
    Au.push_back(sysm(n, 0)); Au.push_back(sysm(n, 4)); spu.reset(new DiscreteConditionalPdf(n, 2, d2));
    for (int u = 0; u < 2; u++) for (int f = 0; f < n; f++) for (int t = 0; t < n; t++) { vector<int> ca; ca.push_back(f); ca.push_back(u); spu->ProbabilitySet(Au[u][t][f], t, ca); }
    smu.reset(new DiscreteSystemModel(spu.get()));
    for (int k : mk) { vector<VV> l(1, meas(n, k)); L.push_back(l); mp.emplace_back(new TablePdf<MV>(1, l, idx)); mm.emplace_back(new MeasurementModel<MV, int>(mp.back().get())); }
    Ls.push_back(meas(n, 0)); Ls.push_back(meas(n, 1)); mps.reset(new TablePdf<MV>(2, Ls, idx)); mms.reset(new MeasurementModel<MV, int>(mps.get()));
  }
  // alphabet: [A-models] [input model u=0,1] [meas model x z] [sensor model s,z] [combined updates]
  int nops() const { return (int)A.size() + 2 + 3 * (int)L.size() + 6 + 6 + 4; }
  void apply(Ctx& c, HistogramFilter<MV>& f, Ref& r, int op, const vector<MV>& zs)
  {
    int na = (int)A.size(), nl = (int)L.size();
    if (op < na) { c.act("predict model %d", op); c.ok(f.Update(sm[op].get()), "refused"); r.sys(A[op]); return; } op -= na;
    if (op < 2) { c.act("predict input %d", op); c.ok(f.Update(smu.get(), op), "refused"); r.sys(Au[op]); return; } op -= 2;
    if (op < 3 * nl) { int m = op / 3, z = op % 3; c.act("measure model %d z=%d", m, z); bool got = f.Update(mm[m].get(), zs[z]); bool want = r.meas(L[m][0][z]); c.ok(got == want, fmt("update status %d, expected %d", (int)got, (int)want)); return; } op -= 3 * nl;
    if (op < 6) { int s = op / 3, z = op % 3; c.act("measure sensor param %d z=%d", s, z); bool got = f.Update(mms.get(), zs[z], s); bool want = r.meas(Ls[s][z]); c.ok(got == want, "update status"); return; } op -= 6;
    if (op < 6) { int z = op % 3, m = (op / 3) % nl; c.act("predict 0 + measure model %d z=%d", m, z); bool got = f.Update(sm[0].get(), mm[m].get(), zs[z]); r.sys(A[0]); bool want = r.meas(L[m][0][z]); c.ok(got == want, "update status"); return; } op -= 6;
    if (op == 0) { c.act("predict u=1 + measure z=2"); bool got = f.Update(smu.get(), 1, mm[0].get(), zs[2]); r.sys(Au[1]); c.ok(got == r.meas(L[0][0][2]), "status"); }
    if (op == 1) { c.act("predict u=0 + sensor s=1 z=1"); bool got = f.Update(smu.get(), 0, mms.get(), zs[1], 1); r.sys(Au[0]); c.ok(got == r.meas(Ls[1][1]), "status"); }
    if (op == 2) { c.act("predict + sensor s=0 z=0"); bool got = f.Update(sm[na - 1].get(), mms.get(), zs[0], 0); r.sys(A[na - 1]); c.ok(got == r.meas(Ls[0][0]), "status"); }
    if (op == 3) { c.act("predict u=1 + sensor s=0 z=2"); bool got = f.Update(smu.get(), 1, mms.get(), zs[2], 0); r.sys(Au[1]); c.ok(got == r.meas(Ls[0][2]), "status"); }
  }
};
template <class MV> static void go(Ctx& c, World<MV>& w, const vector<MV>& zs, int pk, const std::function<int(int)>& next, int depth)
{
  V m(w.n); DiscretePdf prior(w.n); prior_set(prior, pk, m); Ref r; r.p = m;
  HistogramFilter<MV> f(&prior); cmp(c, f, r, "initially");
  for (int k = 0; k < depth; k++) {
    w.apply(c, f, r, next(k), zs); cmp(c, f, r, fmt("step %d", k + 1).c_str()); c.state(mc::H()(w.n)(r.p));
    for (int i = 0; i < w.n; i++) c.ok(std::fabs((double)prior.ProbabilityGet(i) - m[i]) < 1e-12, "the prior object was modified");
  }
}
static int iid(const int& z) { return z; }
static const vector<int> ZI{0, 1, 2};
SCENARIO(histories_int, 8)
{
  int n = 1 + c.choose(3, "states"), pk = c.choose(3, "prior");
  World<int> w(n, {0, 1, 2}, {0, 1}, iid);
  go<int>(c, w, ZI, pk, [&](int) { return c.choose(w.nops(), "op"); }, c.thorough ? 3 : 2);
}
SCENARIO(histories_deep, 8)
{
  int n = 2 + c.choose(2, "states"); World<int> w(n, {1, 2}, {0, 4}, iid);
  int alpha[] = {0, 1, 2, 3, 4, 6, 8, 11, 14, 15}; int na = 10;
  go<int>(c, w, ZI, 2, [&](int) { return alpha[c.choose(na, "op")]; }, c.thorough ? 6 : 4);
}
SCENARIO(extreme_likelihoods, 8)
{
  int n = 1 + c.choose(4, "states"), pk = c.choose(3, "prior"); World<int> w(n, {1, 4}, {2, 3, 4, 1}, iid);
  go<int>(c, w, ZI, pk, [&](int) { return c.choose(w.nops(), "op"); }, 2);
}
// probabilities and likelihoods of very different magnitude: what is negligible now may decide later
SCENARIO(contrast, 8)
{
  int n = 2 + c.choose(3, "states"), pk = 2 + c.choose(2, "prior"); World<int> w(n, {0, 1, 3}, {5, 6}, iid);
  go<int>(c, w, ZI, pk, [&](int) { return c.choose(w.nops(), "op"); }, c.thorough ? 3 : 2);
}
SCENARIO(representable, 4)
{
  int n = 1 + c.choose(4, "states"), pk = c.choose(3, "prior"); World<int> w(n, {1, 3}, {7, 8}, iid);
  go<int>(c, w, ZI, pk, [&](int) { return c.choose(w.nops(), "op"); }, 2);
}
SCENARIO(continuous_measurements, 8)
{
  int n = 2 + c.choose(2, "states"), pk = c.choose(3, "prior");
  World<ColumnVector> w(n, {0, 1, 2}, {0, 1, 2}, [](const ColumnVector& z) { return (int)std::floor(z(2) + 0.5); });
  vector<ColumnVector> zs; for (int i = 0; i < 3; i++) { ColumnVector z(2); z(1) = 7.5; z(2) = i; zs.push_back(z); }
  go<ColumnVector>(c, w, zs, pk, [&](int) { return c.choose(w.nops(), "op"); }, 2);
}
SCENARIO(sizes, 8)
{
  static const int sz[] = {1, 2, 4, 5, 7, 8, 9, 10, 16, 20, 33, 64};
  int n = sz[c.choose(12, "states")], pk = c.choose(3, "prior"); World<int> w(n, {0, 1, 2, 4}, {0, 1, 3}, iid);
  go<int>(c, w, ZI, pk, [&](int) { return c.choose(w.nops(), "op"); }, n <= 10 ? 2 : 1);
}
// long histories: every word of length <= 2 repeated to length 80
SCENARIO(periodic, 8)
{
  int n = 3; World<int> w(n, {0, 1, 2}, {0, 2}, iid); int len = 1 + c.choose(2, "len"); vector<int> word; for (int i = 0; i < len; i++) word.push_back(c.choose(w.nops(), "op"));
  go<int>(c, w, ZI, 2, [&](int k) { return word[k % len]; }, 80);
}
// two filters over the same models, interleaved in every order, do not influence each other
SCENARIO(interleaved, 8)
{
  World<int> w(3, {0, 1}, {0, 1}, iid); V m1(3), m2(3); DiscretePdf p1(3), p2(3); prior_set(p1, 0, m1); prior_set(p2, 2, m2); Ref r1, r2; r1.p = m1; r2.p = m2;
  HistogramFilter<int> f1(&p1), f2(&p2); int alpha[] = {0, 1, 3, 4, 6, 8, 10};
  for (int k = 0; k < (c.thorough ? 4 : 3); k++) { int who = c.choose(2, "filter"); int op = alpha[c.choose(7, "op")]; w.apply(c, who ? f2 : f1, who ? r2 : r1, op, ZI); cmp(c, f1, r1, "filter 1"); cmp(c, f2, r2, "filter 2"); c.state(mc::H()(r1.p)(r2.p)); }
}
// reset between updates, also to another number of states: the filter behaves as a new one started from the given prior
SCENARIO(reset, 8)
{
  int n[3] = {1 + c.choose(3, "states"), 1 + c.choose(3, "new states"), 0}; n[2] = n[0]; vector<std::unique_ptr<World<int>>> w; for (int i = 0; i < 2; i++) w.emplace_back(new World<int>(n[i], {0, 1}, {0, 1}, iid)); DiscretePdf p0(n[0]), p1(n[1]); V m0(n[0]), m1(n[1]); prior_set(p0, 2, m0); prior_set(p1, c.choose(3, "prior"), m1); Ref r; r.p = m0; HistogramFilter<int> f(&p0); static const int alpha[] = {0, 3, 4, 8, 11}; int at = 0;
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) { int op = c.choose(7, "op"); if (op < 5) w[at]->apply(c, f, r, alpha[op], ZI); else { at = op - 5; c.act("reset to prior %d", at); Filter<int, int>* b = &f; if (k % 2) b->Reset(at ? &p1 : &p0); else f.Reset(at ? &p1 : &p0); r.p = at ? m1 : m0; } cmp(c, f, r, "after reset"); for (int i = 0; i < n[0]; i++) c.ok(std::fabs((double)p0.ProbabilityGet(i) - m0[i]) < 1e-12, "first prior modified"); for (int i = 0; i < n[1]; i++) c.ok(std::fabs((double)p1.ProbabilityGet(i) - m1[i]) < 1e-12, "second prior modified"); c.state(mc::H()(at)(r.p)); }
}

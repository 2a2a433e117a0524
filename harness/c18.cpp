// C18: Gaussian densities always describe the current mean and covariance
#include "mc_main.h"
#include "kfworld.h"
#include <pdf/gaussian.h>
using namespace kw; typedef ColumnVector CV;
struct M { Mat mu, S; int dim; };
static Mat mean_of(int n, int k) { return gencol(n, 2 + 5 * k) * (k == 3 ? 100.0L : 1.0L); }
static Mat cov_of(int n, int k) { static const int pat[] = {0, 1, 4, 2, 3, 0}; return k == 5 ? spd(n, 6, 0) + ref::I(n) * 10.0L : spd(n, 3 + k, pat[k]); }
static Mat pt(int n, const M& m, int k) { return k == 0 ? m.mu : k == 1 ? gencol(n, 7) : k == 2 ? m.mu + gencol(n, 4) * 0.3L : gencol(n, 5) * 8; }
static void dens(Ctx& c, const Pdf<CV>& g, const M& m, const Mat& x, const char* who) { Mat y = br::from(br::cv(x)); double want = (double)ref::gauss_pdf(y, m.mu, m.S), got = g.ProbabilityGet(br::cv(x)); Mat d = y - m.mu; double q = (double)(ref::T(d) * ref::inv(m.S) * d)(0); c.ok(got >= 0, "negative density"); if (want > 1e-290 && q < 1e4) c.rel(got, want, fmt("%s: density", who).c_str(), 1e-9 * (1 + q) * 10); else c.ok(got <= 1e-250, fmt("%s: density of a far point is %g", who, got)); }
static void same(Ctx& c, const Gaussian& g, const M& m, const char* who) { c.eq(g.DimensionGet(), m.dim, "dimension"); br::same(c, br::from(g.ExpectedValueGet()), m.mu, fmt("%s: mean", who).c_str(), 1e-12); br::same(c, br::from(g.CovarianceGet()), m.S, fmt("%s: covariance", who).c_str(), 1e-12); }
static M rd(const M& m) { M r = m; r.mu = br::from(br::cv(m.mu)); r.S = br::from(br::sm(m.S)); return r; }
static M mk(int n, int a, int b) { return rd(M{mean_of(n, a), cov_of(n, b), n}); }
struct Obj { std::unique_ptr<Gaussian> g; M m; };
static const int NOPS = 13;
static void op(Ctx& c, Obj& a, Obj& b, int o)
{
  int n = a.m.dim;
  if (o < 3) { int k = o + 1; c.act("mean %d", k); M t = mk(n, k, 0); a.g->ExpectedValueSet(br::cv(t.mu)); a.m.mu = t.mu; }
  else if (o < 6) { int k = o - 2; c.act("covariance %d", k); M t = mk(n, 0, k); a.g->CovarianceSet(br::sm(t.S)); a.m.S = t.S; }
  else if (o < 9) { c.act("density"); dens(c, *a.g, a.m, pt(n, a.m, o - 6), "density"); }
  else if (o == 9) { if (a.m.dim != b.m.dim) { c.act("assign (other dimension)"); } else c.act("assign"); *a.g = *b.g; a.m = b.m; }
  else if (o == 10) { c.act("copy"); a.g.reset(new Gaussian(*b.g)); a.m = b.m; }
  else if (o == 11) { c.act("clone"); a.g.reset(b.g->Clone()); a.m = b.m; }
  else { c.act("sample"); Sample<CV> s(n); long k = 0; mc::rng.norm = [&]() { return 0.3 * ++k; }; c.ok(a.g->SampleFrom(s), "sample"); std::vector<Sample<CV>> l; c.ok(a.g->SampleFrom(l, 2), "samples"); mc::rng.norm = nullptr; }
}
static void both(Ctx& c, Obj& a, Obj& b) { same(c, *a.g, a.m, "object 1"); same(c, *b.g, b.m, "object 2"); mc::H h; ref::hash(h, a.m.mu); ref::hash(h, a.m.S); ref::hash(h, b.m.mu); ref::hash(h, b.m.S); c.state(h); }
static void fin(Ctx& c, Obj& a, Obj& b) { for (int k = 0; k < 4; k++) { dens(c, *a.g, a.m, pt(a.m.dim, a.m, k), "object 1"); dens(c, *b.g, b.m, pt(b.m.dim, b.m, k), "object 2"); } }
static Obj make(Ctx& c, int n, int how, int a, int b)
{
  Obj o; o.m = mk(n, a, b);
  switch (how) {
    case 0: o.g.reset(new Gaussian(br::cv(o.m.mu), br::sm(o.m.S))); break;
    case 1: o.g.reset(new Gaussian(n)); o.g->ExpectedValueSet(br::cv(o.m.mu)); o.g->CovarianceSet(br::sm(o.m.S)); break;
    case 2: o.g.reset(new Gaussian()); o.g->ExpectedValueSet(br::cv(o.m.mu)); o.g->CovarianceSet(br::sm(o.m.S)); break;
    case 3: o.g.reset(new Gaussian()); o.g->CovarianceSet(br::sm(o.m.S)); o.g->ExpectedValueSet(br::cv(o.m.mu)); break;
    default: o.g.reset(new Gaussian()); o.g->DimensionSet(n); o.g->CovarianceSet(br::sm(o.m.S)); o.g->ExpectedValueSet(br::cv(o.m.mu)); break;
  }
  c.act("create %d", how); return o;
}
static void hist(Ctx& c, int n, int n2, int depth) { int h1 = c.choose(5, "ctor"), pre = c.choose(2, "density first"); Obj a = make(c, n, h1, 0, 0), b = make(c, n2, 0, 2, 5); if (pre) { dens(c, *a.g, a.m, pt(n, a.m, 1), "new object"); dens(c, *b.g, b.m, pt(n2, b.m, 1), "new object"); } both(c, a, b); for (int k = 0; k < depth; k++) { int who = c.choose(2, "object"), o = c.choose(NOPS, "op"); if (who) op(c, b, a, o); else op(c, a, b, o); both(c, a, b); } fin(c, a, b); }
SCENARIO(dim1, 8) { hist(c, 1, 1, 3); }
SCENARIO(dim2, 8) { hist(c, 2, 2, 3); }
SCENARIO(dim3, 8) { hist(c, 3, 3, c.thorough ? 3 : 2); }
SCENARIO(dims_mixed, 8) { int n = 1 + c.choose(4, "n1"), n2 = 1 + c.choose(4, "n2"); hist(c, n, n2, 2); }
SCENARIO(deep, 8) { Obj a = make(c, 2, 0, 0, 0), b = make(c, 2, 0, 2, 5); static const int al[] = {0, 3, 4, 7, 9, 10}; for (int k = 0; k < (c.thorough ? 6 : 4); k++) { int who = c.choose(2, "object"), o = al[c.choose(6, "op")]; if (who) op(c, b, a, o); else op(c, a, b, o); both(c, a, b); } fin(c, a, b); }
SCENARIO(sizes, 4) { static const int d[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16}; int n = d[c.choose(12, "n")], a = c.choose(4, "mean"), b = c.choose(6, "covariance"); Obj o = make(c, n, c.choose(5, "ctor"), a, b), p; for (int k = 0; k < 4; k++) dens(c, *o.g, o.m, pt(n, o.m, k), "density"); same(c, *o.g, o.m, "object"); M t = mk(n, (a + 1) % 4, (b + 1) % 6); o.g->CovarianceSet(br::sm(t.S)); o.m.S = t.S; for (int k = 0; k < 4; k++) dens(c, *o.g, o.m, pt(n, o.m, k), "density after a change"); c.state(mc::H()(n)(a)(b)); }
// the density is a density: sums to one over a grid, is largest at the mean and falls along every ray
SCENARIO(shape, 2)
{
  int n = 1 + c.choose(2, "n"), a = c.choose(3, "mean"), b = c.choose(3, "covariance"); M m = mk(n, a, b); Gaussian g(br::cv(m.mu), br::sm(m.S)); double at = g.ProbabilityGet(br::cv(m.mu)), last; c.act("shape"); for (int k = 0; k < 6; k++) { last = at; Mat d = gencol(n, k + 1); if (n == 1 && d(0) == 0) d(0) = 1; for (int i = 1; i < 12; i++) { double v = g.ProbabilityGet(br::cv(m.mu + d * (0.2L * i))); c.ok(v <= last, "density does not fall away from the mean"); last = v; } }
  Mat L = ref::chol(m.S); double sum = 0, h = 0.1; int N = n == 1 ? 160 : 120; if (n == 1) for (int i = -N; i <= N; i++) sum += h * (double)L(0, 0) * g.ProbabilityGet(br::cv(m.mu + L * ref::col({i * h}))); else { h = 0.15; for (int i = -N / 2; i <= N / 2; i++) for (int j = -N / 2; j <= N / 2; j++) sum += h * h * (double)(L(0, 0) * L(1, 1)) * g.ProbabilityGet(br::cv(m.mu + L * ref::col({i * h, j * h}))); } c.near(sum, 1, "total probability", 1e-6); c.state(mc::H()(n)(a)(b));
}
// parameters that share invariants with the ones they replace: same determinant, trace, diagonal, single elements, norm or sum of the mean
static Mat variant(const Mat& S, int k) { int n = S.r; Mat m(S); auto at = [&](int i) { return k == 1 ? n - 1 - i : k == 2 ? (i + 1) % n : i; }; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { m(i, j) = S(at(i), at(j)); if (k == 3) m(i, j) *= (i == 0) != (j == 0) ? -1 : 1; if (k == 4) m(i, j) *= (i == n - 1) != (j == n - 1) ? -1 : 1; if (k == 5) { R f = (i == 0 ? 2 : i == n - 1 ? 0.5L : 1), g = (j == 0 ? 2 : j == n - 1 ? 0.5L : 1); m(i, j) *= f * g; } if (k == 6 && i != j) m(i, j) *= 0.5L; if (k == 7 && i != j && i + j == 2 * n - 3) m(i, j) *= 0.5L; if (k == 8 && i == n - 1 && j == n - 1) m(i, j) *= 1.5L; if (k == 9 && i == 0 && j == 0) m(i, j) *= 1.5L; } return m; }
static Mat mvariant(const Mat& v, int k) { int n = v.r; Mat m(v); for (int i = 0; i < n; i++) m(i) = k == 1 ? v(n - 1 - i) : k == 2 ? -v(i) : k == 3 && i == n - 1 ? v(i) + 1 : k == 4 && i == 0 ? v(i) + 1 : v(i); return m; }
SCENARIO(related, 8)
{
  int n = 1 + c.choose(4, "n"), a = c.choose(10, "covariance"), b = c.choose(10, "covariance"), p = c.choose(5, "mean"), q = c.choose(5, "mean"), how = c.choose(4, "order"), s = c.choose(2, "size"); Mat S = spd(n, 3) * (s ? 1e-4L : 1.0L), mu = gencol(n, 3) * (s ? 1e-2L : 1.0L); M m = rd(M{mvariant(mu, p), variant(S, a), n}); Gaussian g(br::cv(m.mu), br::sm(m.S)); R sc = s ? 1e-2L : 1; auto all = [&](const Gaussian& x, const char* who) { for (int k = 0; k < 2; k++) dens(c, x, m, m.mu + gencol(n, 4 + k) * 0.4L * sc, who); }; c.act("covariance %d %d, mean %d %d", a, b, p, q); all(g, "density"); M o = m; Gaussian old(g), as; M t = rd(M{mvariant(mu, q), variant(S, b), n});
  if (how == 0) { g.CovarianceSet(br::sm(t.S)); m.S = t.S; all(g, "after another covariance"); } if (how == 1) { g.ExpectedValueSet(br::cv(t.mu)); m.mu = t.mu; all(g, "after another mean"); } if (how < 2) { if (how) { g.CovarianceSet(br::sm(t.S)); m.S = t.S; } else { g.ExpectedValueSet(br::cv(t.mu)); m.mu = t.mu; } all(g, "after both"); }
  else { Gaussian h(br::cv(t.mu), br::sm(t.S)); m = t; if (how == 2) all(h, "other density"); g = h; all(g, "assigned"); g.CovarianceSet(br::sm(o.S)); m.S = o.S; all(g, "changed back"); m = t; all(h, "source of the assignment"); }
  m = o; all(old, "copy"); mc::H hh; ref::hash(hh, o.S); ref::hash(hh, t.S); ref::hash(hh, t.mu); c.state(hh);
}

// C14: square root iterated extended Kalman filter (implicit measurement models)
#include "mc_main.h"
#include "kfworld.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
using namespace kw;
// implicit model around a reference Model: virtual measurement = f(x, s) + noise of covariance R(x)
struct Imp : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  Model& m; int ident; ColumnVector e; SymmetricMatrix R; Matrix H, D, SR;
  Imp(Model& mm) : m(mm), ident(0) {}
  void at(const ColumnVector& z, const ColumnVector& x) { Mat X = br::from(x), S; if (m.hasu) S = br::from(z); e = br::cv(m.f(X, S)); H = br::mx(m.df(X, S)); Mat C = m.cov(X); R = br::sm(C); ident = 1; Mat q(C.r, C.c); for (int i = 0; i < C.r; i++) for (int j = 0; j < C.c; j++) if (i != j && C(i, j) != 0) ident = 0; if (ident) for (int i = 0; i < C.r; i++) q(i, i) = std::sqrt(C(i, i)); SR = br::mx(q); D = br::mx(ref::I(C.r)); }
  const ColumnVector& fGet() const { return e; } const int TypeGet() const { return 0; } Matrix& dfGet(int) { return H; }
  Matrix df_dxGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return H; }
  Matrix& df_dzGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return D; }
  ColumnVector PredictionGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return e; }
  ColumnVector ExpectedValueGet() { return e; } SymmetricMatrix& CovarianceGet() { return R; } SymmetricMatrix CovarianceGet(const ColumnVector& z, const ColumnVector& x) { at(z, x); return R; }
  void Calculate(const ColumnVector& x, const ColumnVector& z, const Matrix&) { at(z, x); } const Matrix& SRCovariance() const { return SR; } const int& Is_Identity() const { return ident; }
};
struct SR { World& w; SRIteratedExtendedKalmanFilter& f; Ref r; int it; vector<std::unique_ptr<Imp>> imp;
  SR(World& w_, SRIteratedExtendedKalmanFilter& f_, const Ref& r_, int it_) : w(w_), f(f_), r(r_), it(it_) { for (auto& m : w.meas) imp.emplace_back(new Imp(*m)); }
  void chk(Ctx& c, const char* who) { agrees(c, f.PostGet(), r, who, 1e-7); Mat J = br::from(f.SRCovarianceGet()); br::same(c, J * ref::T(J), r.P, mc::fmt("%s: square root of the covariance", who).c_str(), 1e-7 + 1e-10 * r.mag); c.state(hk(r)); }
  void predict(Ctx& c, int si, int k) { Model& m = *w.sys[si]; Mat u = w.uin(m, k); c.act("predict model %d input %d", si, k); c.ok(m.hasu ? f.Update(m.sys.get(), br::cv(u)) : f.Update(m.sys.get()), "status"); r.predict(m, u); chk(c, "prediction"); }
  void measure(Ctx& c, int mi, int k) { Model& m = *w.meas[mi]; Mat z = w.z[m.m][k], s = w.s[k]; bool cl; c.act("measure model %d value %d", mi, k); c.ok(m.hasu ? f.Update(imp[mi].get(), br::cv(z), br::cv(s)) : f.Update(imp[mi].get(), br::cv(z)), "status"); r.iterate(m, z, s, it, -1, &cl); chk(c, "measurement update"); }
  void both(Ctx& c, int si, int mi, int k) { Model &a = *w.sys[si], &b = *w.meas[mi]; Mat u = w.uin(a, k), s = w.s[k], z = w.z[b.m][k]; bool cl, ok; c.act("update system %d measurement %d", si, mi); ColumnVector uu = br::cv(u), zz = br::cv(z), ss = br::cv(s); Imp* p = imp[mi].get();
    if (a.hasu && b.hasu) ok = f.Update(a.sys.get(), uu, p, zz, ss); else if (a.hasu) ok = f.Update(a.sys.get(), uu, p, zz); else if (b.hasu) ok = f.Update(a.sys.get(), p, zz, ss); else ok = f.Update(a.sys.get(), p, zz); c.ok(ok, "status"); r.predict(a, u); r.iterate(b, z, s, it, -1, &cl); chk(c, "combined update"); }
};
static int nsr(World& w) { return 5 + 2 * (int)w.meas.size() + 4; }
static void srop(Ctx& c, SR& s, int o)
{ int nm = (int)s.w.meas.size(); if (o < 5) return s.predict(c, o, o % 2); o -= 5; if (o < 2 * nm) return s.measure(c, o / 2, o % 2); o -= 2 * nm; static const int t[4][2] = {{0, 1}, {1, 4}, {3, 2}, {4, 5}}; s.both(c, t[o][0], t[o][1], o % 2); }
static void history(Ctx& c, int n, int pat, int it, int depth, const std::function<int(World&)>& next, int qpat = 0, bool big = false)
{ World w(n, qpat, 0, big); Ref r = prior_of(n, pat); Gaussian prior(br::cv(r.x), br::sm(r.P)); SRIteratedExtendedKalmanFilter f(&prior, it); SR s(w, f, r, it); s.chk(c, "initially"); for (int k = 0; k < depth; k++) srop(c, s, next(w)); agrees(c, &prior, r, "the prior"); }
#define ANY [&](World& w) { return c.choose(nsr(w), "op"); }
SCENARIO(dim1, 4) { int pat = c.choose(3, "prior"), it = 1 + c.choose(3, "iterations"); c.choose(1, ""); history(c, 1, pat, it, 2, ANY); }
SCENARIO(dim2, 8) { int pat = c.choose(3, "prior"), it = 1 + c.choose(3, "iterations"); c.choose(1, ""); history(c, 2, pat, it, 2, ANY); }
SCENARIO(dim3, 8) { int pat = c.choose(2, "prior"), it = 1 + c.choose(3, "iterations"); c.choose(1, ""); history(c, 3, pat, it, 2, ANY); }
SCENARIO(deep, 8) { static const int al[] = {0, 1, 4, 5, 9, 12, 20, 27}; int it = 1 + c.choose(2, "iterations"); c.choose(1, ""); c.choose(1, ""); history(c, 2, 0, it, c.thorough ? 4 : 3, [&](World& w) { return al[c.choose(8, "op")] % nsr(w); }); }
SCENARIO(sizes, 4) { static const int d[] = {4, 5, 6, 8, 10}; int n = d[c.choose(5, "n")], it = 1 + c.choose(2, "iterations"); c.choose(1, ""); history(c, n, 0, it, 1, ANY); }
SCENARIO(many_iterations, 8) { int n = 1 + c.choose(3, "n"), it = 1 + c.choose(12, "iterations"), pat = c.choose(2, "prior"); history(c, n, pat, it, 1, ANY); }
SCENARIO(singular_noise, 8) { int n = 1 + c.choose(4, "n"), q = 5 + c.choose(3, "process noise"), pat = c.choose(3, "prior"), it = 1 + c.choose(2, "iterations"); history(c, n, pat, it, 2, [&](World& w) { return c.choose(11, "op"); }, q); }
SCENARIO(big_measurements, 8) { static const int d[] = {2, 3, 5, 8, 9}; int n = d[c.choose(5, "n")], it = 1 + c.choose(2, "iterations"); c.choose(1, ""); history(c, n, 0, it, 2, [&](World& w) { int k = c.choose(8, "op"); return k < 2 ? k : 5 + 2 * ((int)w.meas.size() - 6 + k - 2); }, 0, true); }
SCENARIO(reset, 4)
{
  int n = 1 + c.choose(3, "n"), n2 = 1 + c.choose(3, "n after"), how = c.choose(3, "how"), it = 2; static const int al[] = {0, 1, 4, 5, 9, 12, 20, 27}; if (how && n != n2) return; World w(n), v(n2); Ref r = prior_of(n, 0), q = prior_of(n2, 1); Gaussian p1(br::cv(r.x), br::sm(r.P)), p2(br::cv(q.x), br::sm(q.P)); SRIteratedExtendedKalmanFilter f(&p1, it); SR a(w, f, r, it); srop(c, a, al[c.choose(8, "op")] % nsr(w));
  if (how == 0) { c.act("reset"); f.Reset(&p2); } else if (how == 1) { c.act("PriorSet"); ColumnVector x = br::cv(q.x); SymmetricMatrix P = br::sm(q.P); f.PriorSet(x, P); } else { c.act("SRCovarianceSet"); q.x = a.r.x; f.SRCovarianceSet(br::mx(ref::chol(q.P))); }
  SR b(v, f, q, it); b.chk(c, "after reset"); srop(c, b, c.choose(nsr(v), "op")); agrees(c, &p1, r, "the first prior");
}
SCENARIO(interleaved, 8)
{ World w(2); Ref r1 = prior_of(2, 0), r2 = prior_of(2, 1); Gaussian p1(br::cv(r1.x), br::sm(r1.P)), p2(br::cv(r2.x), br::sm(r2.P)); SRIteratedExtendedKalmanFilter f1(&p1, 1), f2(&p2, 2); SR a(w, f1, r1, 1), b(w, f2, r2, 2); static const int al[] = {0, 4, 5, 12, 20, 27}; for (int k = 0; k < 3; k++) { int who = c.choose(2, "filter"); srop(c, who ? b : a, al[c.choose(6, "op")] % nsr(w)); a.chk(c, "filter 1"); b.chk(c, "filter 2"); } }

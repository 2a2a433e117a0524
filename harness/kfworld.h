// Linear and non-linear Gaussian models together with a long double reference filter.
#ifndef VERIF_KFWORLD_H
#define VERIF_KFWORLD_H
#include "bflref.h"
#include <memory>
#include <filter/extendedkalmanfilter.h>
#include <filter/iteratedextendedkalmanfilter.h>
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/analyticconditionalgaussian_additivenoise.h>
#include <model/linearanalyticsystemmodel_gaussianuncertainty.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty.h>
#include <model/analyticsystemmodel_gaussianuncertainty.h>
#include <model/analyticmeasurementmodel_gaussianuncertainty.h>
namespace kw {
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt; using ref::Mat; using ref::R;
using MatrixWrapper::ColumnVector; using MatrixWrapper::Matrix; using MatrixWrapper::SymmetricMatrix;
// deterministic "generic" matrices: no accidental symmetry, zeros or equal rows
inline R gen(int a, int b, int seed) { return (R)(((a * 7 + b * 5 + seed * 11 + a * b * 3 + seed * a * 2) % 13) - 6) / 4; }
inline Mat genmat(int r, int c, int seed) { Mat m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = gen(i + 1, j + 1, seed) + (i == j ? 0.5L : 0); return m; }
inline Mat gencol(int n, int seed) { Mat m(n, 1); for (int i = 0; i < n; i++) m(i) = gen(i + 1, 2, seed); return m; }
// symmetric positive definite; pattern 0 full, 1 diagonal, 2 tiny, 3 huge, 4 very different scales
inline Mat spd(int n, int seed, int pat = 0)
{
  Mat g = genmat(n, n, seed), m = g * ref::T(g); for (int i = 0; i < n; i++) m(i, i) += 0.5L;
  if (pat == 1) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) m(i, j) = 0;
  if (pat == 2) m = m * 1e-6L; if (pat == 3) m = m * 1e3L;
  if (pat == 4) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) *= std::pow(n <= 4 ? 10.0L : 1.5L, (R)(i + j - n + 1));
  if (pat == 5) for (int i = 0; i < n; i++) m(i, 0) = m(0, i) = 0;                       // singular: first direction, last direction, all but one
  if (pat == 6) for (int i = 0; i < n; i++) m(i, n - 1) = m(n - 1, i) = 0;
  if (pat == 7) { Mat v = gencol(n, seed + 3); for (int i = 0; i < n; i++) v(i) += 0.25L; m = v * ref::T(v); }
  return m;
}
// user defined non-linear models: mean, Jacobian with respect to the state, additive noise that may depend on the state
struct NLF {
  int kind, n, m;                                                    // n: argument dimension, m: output dimension
  Mat f(const Mat& x, const Mat* u) const
  {
    Mat y(m, 1);
    for (int i = 0; i < m; i++) {
      R a = x(i % n), b = x((i + 1) % n), w = u ? (*u)(i % u->r) : 0;
      switch (kind) {
        case 0: y(i) = std::sin(a) + 0.5L * b + w; break;
        case 1: y(i) = a * b * 0.25L + a - w; break;
        case 2: y(i) = std::exp(0.3L * a) - b + w * a * 0.5L; break;
        default: y(i) = a * a * 0.2L + 2 * b + w * w; break;
      }
    }
    return y;
  }
  Mat df(const Mat& x, const Mat* u) const
  {
    Mat d(m, n);
    for (int i = 0; i < m; i++) {
      int p = i % n, q = (i + 1) % n; R a = x(p), b = x(q), w = u ? (*u)(i % u->r) : 0;
      switch (kind) {
        case 0: d(i, p) += std::cos(a); d(i, q) += 0.5L; break;
        case 1: d(i, p) += b * 0.25L + 1; d(i, q) += a * 0.25L; break;
        case 2: d(i, p) += 0.3L * std::exp(0.3L * a) + w * 0.5L; d(i, q) += -1; break;
        default: d(i, p) += 0.4L * a; d(i, q) += 2; break;
      }
    }
    return d;
  }
};
struct NLPdf : public AnalyticConditionalGaussianAdditiveNoise {
  NLF nf; bool statecov; Mat mu, S;
  NLPdf(const NLF& f, const Mat& mu_, const Mat& S_, int nargs, bool sc) : AnalyticConditionalGaussianAdditiveNoise(Gaussian(br::cv(mu_), br::sm(S_)), nargs), nf(f), statecov(sc), mu(mu_), S(S_) {}
  virtual NLPdf* Clone() const { return new NLPdf(*this); }
  Mat x() const { return br::from(ConditionalArgumentGet(0)); }
  virtual ColumnVector ExpectedValueGet() const { Mat u; bool h = NumConditionalArgumentsGet() > 1; if (h) u = br::from(ConditionalArgumentGet(1)); return br::cv(nf.f(x(), h ? &u : NULL)) + AdditiveNoiseMuGet(); }
  virtual Matrix dfGet(unsigned int i) const { Mat u; bool h = NumConditionalArgumentsGet() > 1; if (h) u = br::from(ConditionalArgumentGet(1)); return br::mx(nf.df(x(), h ? &u : NULL)); }
  virtual SymmetricMatrix CovarianceGet() const { return statecov ? br::sm(cov(x())) : AdditiveNoiseSigmaGet(); }
  Mat cov(const Mat& x) const { return statecov ? S * (1 + x(0) * x(0) * 0.1L) : S; }
};
// one model in both worlds
struct Model {
  bool lin, hasu; int n, m; Mat A, B, mu, S; NLF nf; bool statecov;
  std::unique_ptr<LinearAnalyticConditionalGaussian> lp; std::unique_ptr<NLPdf> np;
  std::unique_ptr<AnalyticSystemModelGaussianUncertainty> sys; std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty> meas;
  AnalyticConditionalGaussian* pdf() { return lin ? (AnalyticConditionalGaussian*)lp.get() : np.get(); }
  static std::unique_ptr<Model> linear(bool sysm, const Mat& A, const Mat* B, const Mat& mu, const Mat& S)
  {
    std::unique_ptr<Model> p(new Model); p->lin = true; p->hasu = B; p->n = A.c; p->m = A.r; p->A = A; if (B) p->B = *B; p->mu = mu; p->S = S; p->statecov = false;
    Gaussian g(br::cv(mu), br::sm(S)); if (B) { vector<Matrix> v; v.push_back(br::mx(A)); v.push_back(br::mx(*B)); p->lp.reset(new LinearAnalyticConditionalGaussian(v, g)); } else p->lp.reset(new LinearAnalyticConditionalGaussian(br::mx(A), g));
    if (sysm) p->sys.reset(new LinearAnalyticSystemModelGaussianUncertainty(p->lp.get())); else p->meas.reset(new LinearAnalyticMeasurementModelGaussianUncertainty(p->lp.get()));
    return p;
  }
  static std::unique_ptr<Model> nonlinear(bool sysm, int kind, int n, int m, bool u, const Mat& mu, const Mat& S, bool sc)
  {
    std::unique_ptr<Model> p(new Model); p->lin = false; p->hasu = u; p->n = n; p->m = m; p->mu = mu; p->S = S; p->nf = NLF{kind, n, m}; p->statecov = sc; p->np.reset(new NLPdf(p->nf, mu, S, u ? 2 : 1, sc));
    if (sysm) p->sys.reset(new AnalyticSystemModelGaussianUncertainty(p->np.get())); else p->meas.reset(new AnalyticMeasurementModelGaussianUncertainty(p->np.get()));
    return p;
  }
  Mat f(const Mat& x, const Mat& u) const { if (!lin) return nf.f(x, hasu ? &u : NULL) + mu; Mat y = A * x + mu; return hasu ? y + B * u : y; }
  Mat df(const Mat& x, const Mat& u) const { return lin ? A : nf.df(x, hasu ? &u : NULL); }
  Mat cov(const Mat& x) const { return statecov ? S * (1 + x(0) * x(0) * 0.1L) : S; }
};
struct Ref {                                                          // Gaussian belief
  Mat x, P; double mag = 0;                                             // mag: largest covariance seen so far (rounding of the updates scales with it)
  void seen() { for (R v : P.a) mag = std::fmax(mag, std::fabs((double)v)); }
  static Mat sym(const Mat& m) { return (m + ref::T(m)) * 0.5L; }
  void predict(const Model& m, const Mat& u) { seen(); Mat F = m.df(x, u), Q = m.cov(x), y = m.f(x, u); P = sym(F * P * ref::T(F) + Q); x = y; }
  void correct(const Mat& z, const Mat& Z, const Mat& H, const Mat& Rr) { seen(); Mat S = H * P * ref::T(H) + Rr, K = P * ref::T(H) * ref::inv(S); for (R v : S.a) mag = std::fmax(mag, std::fabs((double)v)); x = x + K * (z - Z); Mat L = ref::I(P.r) - K * H; P = sym(L * P * ref::T(L) + K * Rr * ref::T(K)); }
  void update(const Model& m, const Mat& z, const Mat& s) { correct(z, m.f(x, s), m.df(x, s), m.cov(x)); }
  // iterated update; thr < 0: no innovation check; returns the number of iterations
  int iterate(const Model& m, const Mat& z, const Mat& s, int it, double thr, bool* close)
  {
    Mat xi = x, H, Z, Rr; int k = 0; *close = false;
    for (; k < it;) { Mat prev = xi; H = m.df(xi, s); Rr = m.cov(xi); Mat S = H * P * ref::T(H) + Rr, K = P * ref::T(H) * ref::inv(S); Z = m.f(xi, s) + H * (x - xi); xi = x + K * (z - Z); k++;
      if (thr >= 0) { Mat d = xi - prev; R q = (ref::T(d) * d)(0); if (std::fabs((double)(q - thr)) <= 1e-9 * (std::fabs(thr) + (double)q)) *close = true; if (!(q >= thr)) break; } }
    correct(z, Z, H, Rr); return k;
  }
  double nis(const Model& m, const Mat& z, const Mat& s) const { Mat d = z - m.f(x, s), H = m.df(x, s); return (double)(ref::T(d) * ref::inv(H * P * ref::T(H) + m.cov(x)) * d)(0); }
};
inline void agrees(Ctx& c, Gaussian* g, const Ref& r, const char* who, double tol = 1e-8)
{
  double mp = 0; for (R v : r.P.a) mp = std::fmax(mp, std::fabs((double)v)); double tp = tol * std::fmax(mp, r.mag * 0.01) + 1e-10 * std::fmax(mp, r.mag) * std::fmax(1.0, mp); tol += 1e-10 * r.mag;
  br::same(c, br::from(g->ExpectedValueGet()), r.x, fmt("%s: mean", who).c_str(), tol); Mat P = br::from(g->CovarianceGet()); c.eq(P.r, r.P.r, "rows of the covariance"); c.eq(P.c, r.P.c, "columns of the covariance");
  for (int i = 0; i < P.r; i++) for (int j = 0; j < P.c; j++) c.ok(std::fabs((double)(P(i, j) - r.P(i, j))) <= tp, fmt("%s: covariance element (%d,%d) is %.12g, expected %.12g", who, i + 1, j + 1, (double)P(i, j), (double)r.P(i, j)));
  for (int i = 0; i < P.r; i++) { c.ok(P(i, i) >= -1e-11 * std::fmax(mp, r.mag), "negative variance"); for (int j = 0; j < i; j++) c.ok(P(i, j) == P(j, i), "covariance not symmetric"); }
}
inline mc::H hk(const Ref& r) { mc::H h; ref::hash(h, r.x); ref::hash(h, r.P); return h; }
typedef std::unique_ptr<Model> MP;
// a world of state dimension n: system and measurement models of all kinds
struct World {
  int n; vector<MP> sys, meas; vector<Mat> u, s; vector<vector<Mat>> z;   // z[m][k]
  World(int n_, int qpat = 0, int rpat = 0, bool big = false) : n(n_)
  {
    Mat B = genmat(n, 2, 9), B1 = genmat(n, n, 4);
    sys.push_back(Model::linear(true, ref::I(n) + genmat(n, n, 1) * 0.1L, NULL, Mat(n, 1), spd(n, 3, qpat)));
    sys.push_back(Model::linear(true, genmat(n, n, 2) * 0.4L, &B, gencol(n, 5), spd(n, 4, qpat)));
    sys.push_back(Model::linear(true, ref::I(n), &B1, Mat(n, 1), Mat(n, n)));                       // no noise at all
    sys.push_back(Model::nonlinear(true, 0, n, n, false, gencol(n, 1) * 0.1L, spd(n, 2, qpat) * 0.1L, false));
    sys.push_back(Model::nonlinear(true, 1, n, n, true, Mat(n, 1), spd(n, 5, qpat) * 0.1L, true));
    for (int m = 1; m <= 4; m++) {
      Mat D = genmat(m, 2, 6);
      meas.push_back(Model::linear(false, genmat(m, n, m), NULL, gencol(m, m), spd(m, m + 1, rpat)));
      if (m <= 3) meas.push_back(Model::linear(false, genmat(m, n, m + 5), &D, Mat(m, 1), spd(m, m, 1)));
      if (m <= 2) meas.push_back(Model::nonlinear(false, 2, n, m, false, gencol(m, 3), spd(m, 7, rpat), false));
      if (m >= 2 && m <= 3) meas.push_back(Model::nonlinear(false, 3, n, m, true, Mat(m, 1), spd(m, 2, rpat), true));
    }
    if (big) for (int m : {5, 6, 8}) { Mat D = genmat(m, 2, 6); meas.push_back(Model::linear(false, genmat(m, n, m), NULL, gencol(m, m), spd(m, m + 1, rpat))); meas.push_back(Model::nonlinear(false, 2, n, m, true, gencol(m, 3), spd(m, 7, rpat), true)); }
    for (int i = 0; i < 2; i++) { u.push_back(gencol(2, 3 + 4 * i)); s.push_back(gencol(2, 1 + 5 * i) * 0.5L); }
    for (int m = 0; m <= 8; m++) { z.push_back({gencol(m, 2), gencol(m, 8) * 3}); }
  }
  Mat uin(const Model& m, int k) const { return m.B.c == n && m.lin && m.B.c != 2 ? gencol(n, 3 + 4 * k) : (m.lin ? u[k] : gencol(2, 3 + 4 * k)); }
};
// a filter and its reference; rule: what a measurement update does to the reference
struct Filt { World& w; KalmanFilter& f; Ref r; std::function<void(Ref&, const Model&, const Mat&, const Mat&)> rule;
  void meas(const Model& m, const Mat& z, const Mat& s) { if (rule) rule(r, m, z, s); else r.update(m, z, s); }
  void chk(Ctx& c, const char* who) { agrees(c, f.PostGet(), r, who); }
  void predict(Ctx& c, int si, int k) { Model& m = *w.sys[si]; Mat u = w.uin(m, k); c.act("predict model %d input %d", si, k); bool ok = m.hasu ? f.Update(m.sys.get(), br::cv(u)) : f.Update(m.sys.get()); c.ok(ok, "status"); r.predict(m, u); chk(c, "prediction"); c.state(hk(r)); }
  void measure(Ctx& c, int mi, int k) { Model& m = *w.meas[mi]; Mat z = w.z[m.m][k], s = w.s[k]; c.act("measure model %d value %d", mi, k); bool ok = m.hasu ? f.Update(m.meas.get(), br::cv(z), br::cv(s)) : f.Update(m.meas.get(), br::cv(z)); c.ok(ok, "status"); meas(m, z, s); chk(c, "measurement update"); c.state(hk(r)); }
  void both(Ctx& c, int si, int mi, int k, int l)
  {
    Model &a = *w.sys[si], &b = *w.meas[mi]; Mat u = w.uin(a, k), s = w.s[l], z = w.z[b.m][l]; ColumnVector uu = br::cv(u), ss = br::cv(s), zz = br::cv(z); c.act("update system %d input %d measurement %d value %d", si, k, mi, l); bool ok;
    if (a.hasu && b.hasu) ok = f.Update(a.sys.get(), uu, b.meas.get(), zz, ss); else if (a.hasu) ok = f.Update(a.sys.get(), uu, b.meas.get(), zz); else if (b.hasu) ok = f.Update(a.sys.get(), b.meas.get(), zz, ss); else ok = f.Update(a.sys.get(), b.meas.get(), zz);
    c.ok(ok, "status"); r.predict(a, u); meas(b, z, s); chk(c, "combined update"); c.state(hk(r));
  }
  void nis(Ctx& c, int mi, int k) { Model& m = *w.meas[mi]; if (m.hasu) return; Mat z = w.z[m.m][k]; c.act("nis model %d", mi); ExtendedKalmanFilter* e = dynamic_cast<ExtendedKalmanFilter*>(&f); if (!e) return; c.near(e->NisGet(m.meas.get(), br::cv(z)), r.nis(m, z, w.s[k]), "normalised innovation squared", 1e-8); chk(c, "after NIS"); }
};
// ops: 0..4 predict (input 0), 5..7 predict input 1 for models with input, then measurement models x values, combined, nis
inline void op(Ctx& c, Filt& f, int o)
{
  int nm = (int)f.w.meas.size();
  if (o < 5) return f.predict(c, o, 0);
  if (o < 8) { static const int t[] = {1, 2, 4}; return f.predict(c, t[o - 5], 1); }
  o -= 8; if (o < 2 * nm) return f.measure(c, o / 2, o % 2);
  o -= 2 * nm; if (o < 6) { static const int t[6][3] = {{0, 0, 0}, {1, 1, 1}, {3, 2, 0}, {4, 3, 1}, {2, 6, 0}, {1, 4, 1}}; return f.both(c, t[o][0], t[o][1], o % 2, t[o][2]); }
  o -= 6; vector<int> t; for (int i = 0; i < nm; i++) if (!f.w.meas[i]->hasu) t.push_back(i); f.nis(c, t[o], o % 2);
}
inline int nnis(const World& w) { int k = 0; for (auto& m : w.meas) if (!m->hasu) k++; return k; }
inline int nops(const World& w) { return 8 + 2 * (int)w.meas.size() + 6 + nnis(w); }
inline Ref prior_of(int n, int pat) { Ref r; r.x = gencol(n, 4 + pat); r.P = spd(n, 6, pat); return r; }
}  // namespace kw
#endif

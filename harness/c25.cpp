// C25: symbolic (GiNaC) densities and models: value, derivative and noise of the given function at the given arguments
#include "mc_main.h"
#include "kfworld.h"
#include <pdf/nonlinearanalyticconditionalgaussian_ginac.h>
#include <model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h>
#include <model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h>
using namespace kw; typedef ColumnVector CV; typedef NonLinearAnalyticConditionalGaussian_Ginac G; typedef GiNaC::ex ex; typedef vector<GiNaC::symbol> Sy;
// value with derivatives with respect to all variables (dual numbers)
struct Du { R v; vector<R> d; Du(R x = 0) : v(x) {} };
static R at(const Du& a, size_t i) { return i < a.d.size() ? a.d[i] : 0; }
static Du mk(R v, const Du& a, R fa, const Du& b, R fb) { Du r(v); size_t n = std::max(a.d.size(), b.d.size()); for (size_t i = 0; i < n; i++) r.d.push_back(at(a, i) * fa + at(b, i) * fb); return r; }
static Du operator+(const Du& a, const Du& b) { return mk(a.v + b.v, a, 1, b, 1); } static Du operator-(const Du& a, const Du& b) { return mk(a.v - b.v, a, 1, b, -1); }
static Du operator*(const Du& a, const Du& b) { return mk(a.v * b.v, a, b.v, b, a.v); } static Du operator/(const Du& a, const Du& b) { return mk(a.v / b.v, a, 1 / b.v, b, -a.v / (b.v * b.v)); }
static Du Sin(const Du& a) { return mk(std::sin(a.v), a, std::cos(a.v), a, 0); } static Du Cos(const Du& a) { return mk(std::cos(a.v), a, -std::sin(a.v), a, 0); } static Du Exp(const Du& a) { return mk(std::exp(a.v), a, std::exp(a.v), a, 0); } static Du Sqrt(const Du& a) { return mk(std::sqrt(a.v), a, 0.5L / std::sqrt(a.v), a, 0); }
static ex Sin(const ex& a) { return GiNaC::sin(a); } static ex Cos(const ex& a) { return GiNaC::cos(a); } static ex Exp(const ex& a) { return GiNaC::exp(a); } static ex Sqrt(const ex& a) { return GiNaC::sqrt(a); }
// row i of the function, written once for symbols and for numbers
template <class T> static T row(int kind, int i, const vector<T>& x, const vector<T>& u)
{
  T a = x[i % x.size()], b = x[(i + 1) % x.size()], w = u.empty() ? T(0.75) : u[i % u.size()], v = u.empty() ? T(2) : u[(i + 1) % u.size()];
  switch ((kind + i) % 10) {
    case 0: return a + w; case 1: return Sin(a) * w + b; case 2: return a * b + v; case 3: return Exp(a * T(0.25)) * T(1 + i) + w * w; case 4: return a * Cos(b + v) + w;
    case 5: return Sqrt(a * a + T(1)) * v - b * w; case 6: return T(1.5); case 7: return (a + b * T(2)) / (w * w + T(1)); case 8: return a * a * a - w * v * b; default: return v * T(0.5) - Sin(w) * a;
  }
}
static vector<Du> fn(int kind, int m, const Mat& x, const Mat& u)   // derivatives: first x, then u
{
  vector<Du> X, U; int n = x.r, k = u.r; for (int i = 0; i < n + k; i++) { Du d(i < n ? x(i) : u(i - n)); d.d.assign(n + k, 0); d.d[i] = 1; (i < n ? X : U).push_back(d); } vector<Du> y; for (int i = 0; i < m; i++) y.push_back(row<Du>(kind, i, X, U)); return y;
}
struct Spec {                       // one density: function, which inputs are noisy (empty: the output), noise and arguments
  int kind, m, n, k; vector<int> cond; Mat mu, S, x, u; Sy xs, us;
  Spec(int ki, int mm, int nn, int kk) : kind(ki), m(mm), n(nn), k(kk) { for (int i = 0; i < n; i++) xs.push_back(GiNaC::symbol(fmt("x%d", i + 1))); for (int i = 0; i < k; i++) us.push_back(GiNaC::symbol(fmt("u%d", i + 1))); x = Mat(n, 1); u = Mat(k, 1); }
  int noise() const { return cond.empty() ? m : (int)cond.size(); }
  GiNaC::matrix func() const { vector<ex> X(xs.begin(), xs.end()), U(us.begin(), us.end()); GiNaC::matrix f(m, 1); for (int i = 0; i < m; i++) f(i, 0) = row<ex>(kind, i, X, U); return f; }
  Sy cs() const { Sy s; for (int i : cond) s.push_back(us[i]); return s; }
  G* make() const { Gaussian g(br::cv(mu), br::sm(S)); return cond.empty() ? new G(func(), us, xs, g) : new G(func(), us, xs, g, cs()); }
  Mat up() const { Mat r = u; for (size_t j = 0; j < cond.size(); j++) r(cond[j]) += mu((int)j); return r; }
  Mat mean() const { auto y = fn(kind, m, x, up()); Mat r(m, 1); for (int i = 0; i < m; i++) r(i) = y[i].v + (cond.empty() ? mu(i) : 0); return r; }
  Mat df() const { auto y = fn(kind, m, x, up()); Mat r(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r(i, j) = at(y[i], j); return r; }
  Mat cov() const { if (cond.empty()) return S; auto y = fn(kind, m, x, up()); Mat D(m, (int)cond.size()); for (int i = 0; i < m; i++) for (size_t j = 0; j < cond.size(); j++) D(i, (int)j) = at(y[i], n + cond[j]); return D * S * ref::T(D); }
};
static Mat rnd(const Mat& m) { return br::from(br::mx(m)); }
static void setnoise(Spec& s, int i) { int q = s.noise(); s.mu = rnd(gencol(q, i)); s.S = rnd(spd(q, i, i % 2)); }
static void setx(Spec& s, int i) { s.x = rnd(gencol(s.n, i)); if (i % 5 == 4) for (auto& v : s.x.a) v = 0; } static void setu(Spec& s, int i) { s.u = rnd(gencol(s.k, i + 3) + gencol(s.k, i) * 0.5L); if (i % 5 == 4) for (auto& v : s.u.a) v = 0; }
static R dens(const Mat& d, const Mat& S) { Mat q = ref::T(d) * ref::inv(S) * d; return std::exp(-q(0) / 2) / std::sqrt(std::pow(2 * (R)M_PI, (R)d.r) * ref::det(S)); }
static bool regular(const Mat& S) { double b = 0; for (R v : S.a) b = std::fmax(b, std::fabs((double)v)); return b > 0 && (double)ref::det(S) > 1e-6 * std::pow(b, S.r); }
static void look(Ctx& c, G& p, const Spec& s, const char* who)
{
  c.eq(p.DimensionGet(), s.m, "dimension"); Mat mu = s.mean(), S = s.cov(); br::same(c, br::from(p.ExpectedValueGet()), mu, fmt("%s: mean", who).c_str(), 1e-10); br::same(c, br::from(p.dfGet(0)), s.df(), fmt("%s: derivative", who).c_str(), 1e-10); br::same(c, br::from(p.CovarianceGet()), S, fmt("%s: covariance", who).c_str(), 1e-10);
  br::same(c, br::from(p.AdditiveNoiseMuGet()), s.mu, "noise mean", 0); br::same(c, br::from(p.AdditiveNoiseSigmaGet()), s.S, "noise covariance", 0);
  if (regular(S)) { Mat d(s.m, 1); for (int i = 0; i < s.m; i++) d(i) = 0.1L * (i + 1) * std::sqrt(S(i, i)); R w = dens(d, S); double g = (double)p.ProbabilityGet(br::cv(mu + d)); c.ok(std::fabs(g - (double)w) <= 1e-6 * (double)w, fmt("%s: density %.12g, expected %.12g", who, g, (double)w)); }
  mc::H h; ref::hash(h, s.x); ref::hash(h, s.u); ref::hash(h, s.mu); ref::hash(h, s.S); h(s.kind); h(s.m); c.state(h);
}
static void symbols(Ctx& c, const GiNaC::matrix& f, const Sy& x, const Sy& u, const Spec& s, const char* who)
{
  c.ok((int)f.rows() == s.m && f.cols() == 1, "size of the function"); GiNaC::matrix w = s.func(); for (int i = 0; i < s.m; i++) c.ok(f(i, 0).is_equal(w(i, 0)), fmt("%s: row %d of the function", who, i + 1)); c.eq((long)x.size(), s.n, "number of state symbols"); c.eq((long)u.size(), s.k, "number of input symbols"); for (int i = 0; i < s.n; i++) c.ok(x[i].is_equal(s.xs[i]), "state symbol"); for (int i = 0; i < s.k; i++) c.ok(u[i].is_equal(s.us[i]), "input symbol");
}
static void conds(Ctx& c, const Sy& q, const Spec& s) { c.eq((long)q.size(), (long)s.cond.size(), "number of noisy parameters"); for (size_t i = 0; i < q.size(); i++) c.ok(q[i].is_equal(s.us[s.cond[i]]), "noisy parameter"); }
static void args(G& p, const Spec& s) { p.ConditionalArgumentSet(0, br::cv(s.x)); p.ConditionalArgumentSet(1, br::cv(s.u)); }
// an ordered selection of noisy inputs
static vector<int> pick(Ctx& c, int k) { static const vector<int> P[] = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {1, 2}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}}; vector<vector<int>> l; for (auto& v : P) { bool f = true; for (int i : v) if (i >= k) f = false; if (f) l.push_back(v); } return l[c.choose((int)l.size(), "noisy inputs")]; }
SCENARIO(values, 8)
{
  int m = 1 + c.choose(3, "m"), n = 1 + c.choose(3, "n"), k = c.choose(4, "k"), kind = c.choose(10, "function"), i = c.choose(c.thorough ? 6 : 3, "arguments"); Spec s(kind, m, n, k); s.cond = pick(c, k); setnoise(s, 3 + i); setx(s, 3 + i); setu(s, 4 + i); c.act("density");
  std::unique_ptr<G> p(s.make()); args(*p, s); look(c, *p, s, "density"); symbols(c, p->FunctionGet(), p->StateGet(), p->InputGet(), s, "density"); conds(c, p->ConditionalGet(), s);
}
// histories: every query answers for the current noise and arguments, copies are independent
SCENARIO(histories, 8)
{
  int f = c.choose(3, "shape"); static const int SH[3][4] = {{1, 2, 1, 2}, {4, 2, 2, 2}, {8, 1, 3, 1}}; Spec s(SH[f][0], SH[f][1], SH[f][2], SH[f][3]); if (f) s.cond = f == 1 ? vector<int>{1, 0} : vector<int>{0}; setnoise(s, 3); setx(s, 3); setu(s, 5); std::unique_ptr<G> p(s.make()), q; args(*p, s); Spec t = s;
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) {
    int o = c.choose(9, "op"); c.act("op %d", o);
    switch (o) {
      case 0: setx(s, 4 + k); p->ConditionalArgumentSet(0, br::cv(s.x)); break; case 1: setu(s, 6 + k); p->ConditionalArgumentSet(1, br::cv(s.u)); break;
      case 2: { Spec r = s; setnoise(r, 5 + k); s.mu = r.mu; p->AdditiveNoiseMuSet(br::cv(s.mu)); break; } case 3: { Spec r = s; setnoise(r, 6 + k); s.S = r.S; p->AdditiveNoiseSigmaSet(br::sm(s.S)); break; }
      case 4: q.reset(new G(*p)); t = s; break; case 5: { Pdf<CV>* e = p->Clone(); c.ok(dynamic_cast<G*>(e) != nullptr, "clone of a GiNaC density is none"); q.reset(dynamic_cast<G*>(e)); t = s; break; } case 6: if (q) { p.swap(q); std::swap(s, t); } break; case 7: look(c, *p, s, "density"); break;
      case 8: { ConditionalPdf<CV, CV>& b = *p; std::unique_ptr<Pdf<CV>> e(b.Clone()); c.ok(dynamic_cast<G*>(e.get()) != nullptr, "clone of a GiNaC density is none"); look(c, *dynamic_cast<G*>(e.get()), s, "clone via base"); break; }
    }
  }
  look(c, *p, s, "density"); if (q) look(c, *q, t, "copy");
}
// draws: answers z of the normal source give mean + root z
static void draws(Ctx& c, const std::function<Mat(const vector<double>&)>& d, const Mat& mu, const Mat& S, const char* who)
{
  int m = mu.r; br::same(c, d(vector<double>(m, 0.0)), mu, fmt("%s: draw for answers 0", who).c_str(), 1e-9); Mat A(m, m); for (int k = 0; k < m; k++) { vector<double> z(m, 0.0); z[k] = 1; Mat x = d(z); for (int i = 0; i < m; i++) A(i, k) = x(i) - mu(i); } br::same(c, A * ref::T(A), S, fmt("%s: covariance of the draws", who).c_str(), 1e-7);
}
static Mat feed(Ctx& c, const vector<double>& z, const std::function<CV()>& f) { size_t pos = 0; mc::rng.norm = [&]() { if (pos >= z.size()) c.fail("more normal answers requested than dimensions"); return z[pos++]; }; CV v = f(); mc::rng.norm = nullptr; return br::from(v); }
SCENARIO(models, 8)
{
  int meas = c.choose(2, "model"), n = 1 + c.choose(3, "n"), m = meas ? 1 + c.choose(3, "m") : n, k = c.choose(4, "k"), kind = c.choose(5, "function") * 2 + 1; Spec s(kind, m, n, k); s.cond = pick(c, k); setnoise(s, 4); setx(s, 4); setu(s, 5); std::unique_ptr<G> p(s.make());
  std::unique_ptr<NonLinearAnalyticSystemModelGaussianUncertainty_Ginac> sm; std::unique_ptr<NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac> mm; if (meas) mm.reset(new NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac(p.get())); else sm.reset(new NonLinearAnalyticSystemModelGaussianUncertainty_Ginac(p.get()));
  if (meas) { symbols(c, mm->FunctionGet(), mm->StateGet(), mm->InputGet(), s, "measurement model"); conds(c, mm->ConditionalGet(), s); c.eq(mm->MeasurementSizeGet(), m, "measurement size"); } else { symbols(c, sm->FunctionGet(), sm->StateGet(), sm->InputGet(), s, "system model"); c.eq(sm->StateSizeGet(), n, "state size"); }
  for (int t = 0; t < 3; t++) {
    setx(s, 5 + t); setu(s, 7 + t); CV u = br::cv(s.u), x = br::cv(s.x); c.act("query"); Mat mu = s.mean(), S = s.cov();
    br::same(c, br::from(meas ? mm->PredictionGet(u, x) : sm->PredictionGet(u, x)), mu, "prediction", 1e-10); br::same(c, br::from(meas ? mm->df_dxGet(u, x) : sm->df_dxGet(u, x)), s.df(), "derivative of the model", 1e-10); br::same(c, br::from(meas ? mm->CovarianceGet(u, x) : sm->CovarianceGet(u, x)), S, "covariance of the model", 1e-10);
    if (regular(S)) { Mat d(m, 1); for (int i = 0; i < m; i++) d(i) = 0.2L * std::sqrt(S(i, i)); CV z = br::cv(mu + d); double g = meas ? (double)mm->ProbabilityGet(z, x, u) : (double)sm->ProbabilityGet(z, x, u); R w = dens(d, S); c.ok(std::fabs(g - (double)w) <= 1e-6 * (double)w, fmt("density of the model is %.12g, expected %.12g", g, (double)w)); draws(c, [&](const vector<double>& z) { return feed(c, z, [&]() { return meas ? mm->Simulate(x, u) : sm->Simulate(x, u); }); }, mu, S, "simulated"); }
    if (t == 1) { setnoise(s, 6); AnalyticConditionalGaussianAdditiveNoise* q = dynamic_cast<AnalyticConditionalGaussianAdditiveNoise*>(meas ? mm->MeasurementPdfGet() : sm->SystemPdfGet()); c.ok(q != nullptr, "density of the model"); q->AdditiveNoiseMuSet(br::cv(s.mu)); q->AdditiveNoiseSigmaSet(br::sm(s.S)); p.reset(); }
  }
}
// extended Kalman filter over symbolic models
SCENARIO(filter, 4)
{
  int n = 1 + c.choose(2, "n"), ks = c.choose(3, "system"), km = c.choose(3, "measurement"); static const int KS[] = {1, 4, 5}, KM[] = {2, 5, 8}; Spec s(KS[ks], n, n, 2), z(KM[km], 2, n, 1); if (c.choose(2, "noise on the input")) s.cond = {0, 1}; setnoise(s, 4); setnoise(z, 5); if (!s.cond.empty() && n == 2) for (int i = 0; i < 2; i++) s.S(i, i) += 1; s.S = s.S * 0.01L; s.S = rnd(s.S); std::unique_ptr<G> ps(s.make()), pz(z.make()); NonLinearAnalyticSystemModelGaussianUncertainty_Ginac S(ps.get()); NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac Z(pz.get());
  Mat mu = rnd(gencol(n, 5) * 0.3L), P = rnd(spd(n, 4) * 0.1L); Gaussian pr(br::cv(mu), br::sm(P)); ExtendedKalmanFilter f(&pr);
  for (int t = 0; t < 3; t++) {
    int o = c.choose(3, "update"); c.act("update %d", o); setu(s, 3 + t); setu(z, 6 + t); Mat y = rnd(gencol(2, 3 + t)); CV u = br::cv(s.u), v = br::cv(z.u), Y = br::cv(y); bool ok = o == 0 ? f.Update(&S, u) : o == 1 ? f.Update(&Z, Y, v) : f.Update(&S, u, &Z, Y, v); c.ok(ok, "status");
    if (o != 1) { s.x = mu; Mat F = s.df(); Mat C = s.cov(); mu = s.mean(); P = F * P * ref::T(F) + C; }
    if (o != 0) { z.x = mu; Mat H = z.df(), I = H * P * ref::T(H) + z.cov(), K = P * ref::T(H) * ref::inv(I); mu = mu + K * (y - z.mean()); P = P - K * H * P; }
    br::same(c, br::from(f.PostGet()->ExpectedValueGet()), mu, "posterior mean", 1e-7); br::same(c, br::from(f.PostGet()->CovarianceGet()), P, "posterior covariance", 1e-7);
  }
  mc::H h; ref::hash(h, mu); c.state(h);
}

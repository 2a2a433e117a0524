// C20: conditional densities and the models built on them always answer for the arguments given
#include "mc_main.h"
#include "kfworld.h"
#include <pdf/discreteconditionalpdf.h>
#include <model/discretesystemmodel.h>
#include <new>
using namespace kw; typedef ColumnVector CV; typedef LinearAnalyticConditionalGaussian L;
struct RefL { int m; vector<Mat> A, x; Mat mu, S; Mat mean() const { Mat y = mu; for (size_t i = 0; i < A.size(); i++) y = y + A[i] * x[i]; return y; } };
static Mat rnd(const Mat& m) { return br::from(br::mx(m)); }
// size of the terms the mean is a sum of
static double magnitude(const RefL& r) { double s = 1e-300; for (R v : r.mu.a) s = std::fmax(s, std::fabs((double)v)); for (size_t i = 0; i < r.A.size(); i++) for (R v : r.A[i].a) for (R w : r.x[i].a) s = std::fmax(s, std::fabs((double)(v * w))); return s; }
static void look(Ctx& c, L& p, const RefL& r, const char* who)
{
  c.eq(p.DimensionGet(), r.m, "dimension"); c.eq(p.NumConditionalArgumentsGet(), (long)r.A.size(), "number of arguments"); c.eq((long)p.ConditionalArgumentsGet().size(), (long)r.A.size(), "size of the argument list");
  for (size_t i = 0; i < r.A.size(); i++) { br::same(c, br::from(p.MatrixGet(i)), r.A[i], fmt("%s: matrix %zu", who, i).c_str(), 0); br::same(c, br::from(p.dfGet(i)), r.A[i], fmt("%s: derivative %zu", who, i).c_str(), 0); br::same(c, br::from(p.ConditionalArgumentGet(i)), r.x[i], fmt("%s: argument %zu", who, i).c_str(), 0); br::same(c, br::from(p.ConditionalArgumentsGet()[i]), r.x[i], fmt("%s: argument list %zu", who, i).c_str(), 0); }
  br::same(c, br::from(p.AdditiveNoiseMuGet()), r.mu, fmt("%s: noise mean", who).c_str(), 0); br::same(c, br::from(p.AdditiveNoiseSigmaGet()), r.S, fmt("%s: noise covariance", who).c_str(), 0);
  br::same(c, br::from(p.CovarianceGet()), r.S, fmt("%s: covariance", who).c_str(), 0); br::same(c, br::from(p.ExpectedValueGet()), r.mean(), fmt("%s: mean", who).c_str(), 1e-11, magnitude(r));
  R sd = std::sqrt(r.S(0, 0)); if (sd > 1) sd = 1; for (int k = 0; k < 2; k++) { Mat z = rnd(r.mean() + gencol(r.m, 4 + k) * 0.3L * sd); c.rel((double)p.ProbabilityGet(br::cv(z)), (double)ref::gauss_pdf(z, r.mean(), r.S), fmt("%s: density", who).c_str(), 1e-8); }
  mc::H h; for (auto& a : r.A) ref::hash(h, a); for (auto& a : r.x) ref::hash(h, a); ref::hash(h, r.mu); ref::hash(h, r.S); c.state(h);
}
static std::unique_ptr<L> make(RefL& r, int m, const vector<int>& d, bool single)
{
  r.m = m; r.A.clear(); r.x.clear(); r.mu = rnd(gencol(m, 3)); r.S = rnd(spd(m, 2)); vector<Matrix> v; for (size_t i = 0; i < d.size(); i++) { r.A.push_back(rnd(genmat(m, d[i], 1 + (int)i))); r.x.push_back(Mat(d[i], 1)); v.push_back(br::mx(r.A[i])); }
  Gaussian g(br::cv(r.mu), br::sm(r.S)); return std::unique_ptr<L>(single ? new L(v[0], g) : new L(v, g));
}
// all shapes: as constructed, then with every order of setting the arguments
SCENARIO(shapes, 8)
{
  int m = 1 + c.choose(4, "m"), na = 1 + c.choose(3, "arguments"); vector<int> d; for (int i = 0; i < na; i++) d.push_back(1 + c.choose(4, "columns")); bool single = na == 1 && c.choose(2, "single"); RefL r; auto p = make(r, m, d, single); look(c, *p, r, "as constructed");
  int style = c.choose(3, "style"); vector<CV> all; for (int k = 0; k < na; k++) { int i = style == 1 ? na - 1 - k : k; r.x[i] = rnd(gencol(d[i], 3 + i)); if (style < 2) { p->ConditionalArgumentSet(i, br::cv(r.x[i])); c.act("argument %d", i); look(c, *p, r, "after setting an argument"); } }
  if (style == 2) { for (auto& x : r.x) all.push_back(br::cv(x)); p->ConditionalArgumentsSet(all); c.act("arguments"); } look(c, *p, r, "arguments set"); std::unique_ptr<L> q(p->Clone()); p.reset(); look(c, *q, r, "clone");
}
SCENARIO(sizes, 8) { static const int D[] = {1, 2, 5, 6, 8, 11, 16, 24}; int m = D[c.choose(8, "m")], k = D[c.choose(8, "columns")], k2 = D[c.choose(8, "columns")]; if (m > 16) c.note("large"); RefL r; auto p = make(r, m, {k, k2}, false); r.S = ref::I(m); for (int i = 0; i < m; i++) r.S(i, i) = 1 + i * 0.25L; p->AdditiveNoiseSigmaSet(br::sm(r.S)); c.act("size"); look(c, *p, r, "constructed"); r.x[0] = rnd(gencol(k, 3)); r.x[1] = rnd(gencol(k2, 5)); p->ConditionalArgumentSet(0, br::cv(r.x[0])); p->ConditionalArgumentSet(1, br::cv(r.x[1])); look(c, *p, r, "arguments"); }
// many arguments; values of zero and of any magnitude
SCENARIO(arguments, 8)
{
  int m = 1 + c.choose(2, "m"), na = 3 + c.choose(4, "arguments"), dim = c.choose(2, "columns"); vector<int> d; for (int i = 0; i < na; i++) d.push_back(dim ? 1 + i % 2 : 1); RefL r; auto p = make(r, m, d, false); int zero = c.choose(na + 2, "argument with value zero"), scale = c.choose(4, "scale"), style = c.choose(3, "style"); static const double S[] = {1, 1e-6, 1e5, 1e-12};
  if (scale) { r.mu = rnd(r.mu * (R)S[scale]); r.S = rnd(r.S * (R)S[scale] * (R)S[scale]); p->AdditiveNoiseMuSet(br::cv(r.mu)); p->AdditiveNoiseSigmaSet(br::sm(r.S)); }
  for (int i = 0; i < na; i++) { r.x[i] = rnd(gencol(d[i], 3 + i) * (R)S[scale]); if (zero == i || zero == na) r.x[i] = Mat(d[i], 1); }
  c.act("%d arguments, zero %d, scale %d", na, zero, scale); if (style == 2) { vector<CV> a; for (auto& x : r.x) a.push_back(br::cv(x)); p->ConditionalArgumentsSet(a); } else for (int k = 0; k < na; k++) { int i = style ? na - 1 - k : k; p->ConditionalArgumentSet(i, br::cv(r.x[i])); }
  look(c, *p, r, "arguments set"); std::unique_ptr<L> q(p->Clone()); L v(*p); int i = na - 1 - c.choose(2, "argument"); RefL r2 = r; r2.x[i] = rnd(gencol(d[i], 9) * (R)S[scale]); p->ConditionalArgumentSet(i, br::cv(r2.x[i])); look(c, *p, r2, "after another argument"); look(c, *q, r, "clone"); look(c, v, r, "copy"); r2.A[i] = rnd(genmat(m, d[i], 8)); p->MatrixSet(i, br::mx(r2.A[i])); look(c, *p, r2, "after another matrix"); mc::rng.norm = []() { return 0.0; }; Sample<CV> smp(m); c.ok(p->SampleFrom(smp), "draw"); mc::rng.norm = nullptr; br::same(c, br::from(smp.ValueGet()), r2.mean(), "draw for answers zero", 1e-9, magnitude(r2));
}
// the noise at any magnitude, in any dimension
SCENARIO(magnitudes, 4)
{
  int m = 1 + c.choose(8, "m"), s = c.choose(6, "scale"), pat = c.choose(3, "pattern"); static const double S[] = {1, 1e-3, 1e-6, 1e-9, 1e3, 1e6}; static const int P[] = {0, 1, 4}; RefL r; auto p = make(r, m, {2, 1}, false); r.S = rnd(spd(m, 2, P[pat]) * (R)S[s]); if (pat == 2 && m > 4) r.S = rnd(spd(m, 2, 1) * (R)S[s]); c.act("dimension %d scale %g", m, S[s]); p->AdditiveNoiseSigmaSet(br::sm(r.S)); look(c, *p, r, "noise"); for (int i = 0; i < 2; i++) { r.x[i] = rnd(gencol(2 - i, 3 + i)); p->ConditionalArgumentSet(i, br::cv(r.x[i])); } look(c, *p, r, "arguments");
}
// histories on two densities; only some operations look in between
SCENARIO(histories, 16)
{
  int m = 1 + c.choose(3, "m"), n1 = 1 + c.choose(2, "columns"); RefL r[2]; std::unique_ptr<L> p[2]; p[0] = make(r[0], m, {n1, 2}, false); p[1] = make(r[1], m == 3 ? 1 : m + 1, {2}, true);
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) {
    int o = c.choose(11, "op"), w = o == 10 ? 0 : (k + o) % 2; RefL& R = r[w]; L& P = *p[w]; int s = 5 + 3 * k; c.act("op %d on %d", o, w);
    int i = (int)R.A.size() - 1;
    switch (o) {
      case 0: R.A[i] = rnd(genmat(R.m, R.A[i].c, s)); P.MatrixSet(i, br::mx(R.A[i])); break;
      case 1: R.A[0] = rnd(genmat(R.m, R.A[0].c, s + 1)); P.MatrixSet(0, br::mx(R.A[0])); break;
      case 2: R.mu = rnd(gencol(R.m, s)); P.AdditiveNoiseMuSet(br::cv(R.mu)); break;
      case 3: R.S = rnd(spd(R.m, s)); P.AdditiveNoiseSigmaSet(br::sm(R.S)); break;
      case 4: R.x[0] = rnd(gencol(R.A[0].c, s)); P.ConditionalArgumentSet(0, br::cv(R.x[0])); break;
      case 5: { vector<CV> a; for (size_t j = 0; j < R.x.size(); j++) { R.x[j] = rnd(gencol(R.A[j].c, s + (int)j)); a.push_back(br::cv(R.x[j])); } P.ConditionalArgumentsSet(a); break; }
      case 6: look(c, P, R, "in between"); break;
      case 7: p[1 - w].reset(p[w]->Clone()); r[1 - w] = r[w]; break;
      case 8: { Sample<CV> smp(R.m); mc::rng.norm = []() { return 0.0; }; c.ok(P.SampleFrom(smp), "draw"); mc::rng.norm = nullptr; br::same(c, br::from(smp.ValueGet()), R.mean(), "draw for answers zero", 1e-9); break; }
      case 9: { int cols = 1 + k % 3; R.A[0] = rnd(genmat(R.m, cols, s + 2)); R.x[0] = rnd(gencol(cols, s)); P.MatrixSet(0, br::mx(R.A[0])); P.ConditionalArgumentSet(0, br::cv(R.x[0])); break; }   // other size of the argument
      case 10: { L q(*p[1]); if (q.NumConditionalArgumentsGet() == p[0]->NumConditionalArgumentsGet()) { *p[0] = q; r[0] = r[1]; } else { int na = 3 - (int)r[0].A.size(); p[0]->NumConditionalArgumentsSet(na); if (na == 1) { r[0].A.resize(1); r[0].x.resize(1); } else if (na == 2) { r[0].A.push_back(rnd(genmat(r[0].m, 2, s))); r[0].x.push_back(rnd(gencol(2, s))); p[0]->MatrixSet(1, br::mx(r[0].A[1])); p[0]->ConditionalArgumentSet(1, br::cv(r[0].x[1])); } } break; }
    }
  }
  look(c, *p[0], r[0], "first"); look(c, *p[1], r[1], "second"); p[0].reset(); look(c, *p[1], r[1], "after the first was destroyed");
}
// models: every query is answered for the arguments given with it, whatever was asked before and through which model
struct M2 { Model* m; bool sys; };
SCENARIO(models, 16)
{
  int n = 1 + c.choose(3, "n"); World w(n); vector<M2> ms; for (int i : {0, 1, 3, 4}) ms.push_back({w.sys[i].get(), true}); for (auto& p : w.meas) if ((int)ms.size() < 4 + 5 + (c.thorough ? 6 : 0)) ms.push_back({p.get(), false}); int own = c.choose(2, "second model");
  int mi = c.choose((int)ms.size(), "model"); M2 m = ms[mi]; Model& M = *m.m; if (m.sys) M.sys->SystemPdfGet();
  // a second model on the same density
  std::unique_ptr<AnalyticSystemModelGaussianUncertainty> s2; std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty> z2; AnalyticSystemModelGaussianUncertainty* S = NULL; AnalyticMeasurementModelGaussianUncertainty* Z = NULL;
  if (m.sys) { s2.reset(M.lin ? new LinearAnalyticSystemModelGaussianUncertainty(M.lp.get()) : new AnalyticSystemModelGaussianUncertainty(M.np.get())); } else z2.reset(M.lin ? new LinearAnalyticMeasurementModelGaussianUncertainty(M.lp.get()) : new AnalyticMeasurementModelGaussianUncertainty(M.np.get()));
  for (int k = 0; k < (c.thorough ? 4 : 3); k++) {
    int o = c.choose(7, "query"), a = c.choose(2, "arguments"); bool second = own && k % 2; S = second ? s2.get() : M.sys.get(); Z = second ? z2.get() : M.meas.get(); Mat x = rnd(gencol(n, 2 + 5 * a + k)), u = rnd(M.lin ? w.uin(M, a) : gencol(2, 3 + 4 * a)); CV X = br::cv(x), U = br::cv(u); if (!M.hasu) U = CV(1); c.act("query %d arguments %d", o, a);
    Mat y = M.f(x, u), C = M.cov(x), z = rnd(y + gencol(M.m, 3 + k) * 0.2L); CV zz = br::cv(z);
    if (m.sys) { c.eq(S->StateSizeGet(), M.m, "state size"); c.eq(S->SystemWithoutInputs(), !M.hasu, "system without inputs"); c.ok(S->SystemPdfGet() == M.pdf(), "density of the model"); } else { c.eq(Z->MeasurementSizeGet(), M.m, "measurement size"); c.eq(Z->SystemWithoutSensorParams(), !M.hasu, "without sensor parameters"); c.ok(Z->MeasurementPdfGet() == M.pdf(), "density of the model"); }
    switch (o) {
      case 0: br::same(c, br::from(m.sys ? S->PredictionGet(U, X) : Z->PredictionGet(U, X)), y, "prediction", 1e-10); break;
      case 1: br::same(c, br::from(m.sys ? S->CovarianceGet(U, X) : Z->CovarianceGet(U, X)), C, "noise covariance", 1e-12); break;
      case 2: br::same(c, br::from(m.sys ? S->df_dxGet(U, X) : Z->df_dxGet(U, X)), M.df(x, u), "Jacobian", 1e-12); break;
      case 3: { double p = m.sys ? (M.hasu ? S->ProbabilityGet(zz, X, U) : S->ProbabilityGet(zz, X)) : (M.hasu ? Z->ProbabilityGet(zz, X, U) : Z->ProbabilityGet(zz, X)); c.rel(p, (double)ref::gauss_pdf(z, y, C), "density", 1e-8); break; }
      case 4: { mc::rng.norm = []() { return 0.0; }; CV g = m.sys ? (M.hasu ? S->Simulate(X, U) : S->Simulate(X)) : (M.hasu ? Z->Simulate(X, U) : Z->Simulate(X)); mc::rng.norm = nullptr; br::same(c, br::from(g), y, "simulation for answers zero", 1e-9); break; }
      case 5: if (M.lin && m.sys) { LinearAnalyticSystemModelGaussianUncertainty* l = dynamic_cast<LinearAnalyticSystemModelGaussianUncertainty*>(S); if (M.hasu && a) { M.B = rnd(genmat(M.m, M.B.c, 7 + k)); l->BSet(br::mx(M.B)); } else { M.A = rnd(genmat(M.m, M.A.c, 8 + k)); l->ASet(br::mx(M.A)); } }
              else if (M.lin) { LinearAnalyticMeasurementModelGaussianUncertainty* l = dynamic_cast<LinearAnalyticMeasurementModelGaussianUncertainty*>(Z); if (M.hasu && a) { M.B = rnd(genmat(M.m, M.B.c, 7 + k)); l->JSet(br::mx(M.B)); } else { M.A = rnd(genmat(M.m, M.A.c, 8 + k)); l->HSet(br::mx(M.A)); } }
              else c.choose(1); break;
      case 6: if (M.lin && m.sys) { auto* l = dynamic_cast<LinearAnalyticSystemModelGaussianUncertainty*>(S); br::same(c, br::from(l->AGet()), M.A, "A", 1e-13); if (M.hasu) br::same(c, br::from(l->BGet()), M.B, "B", 1e-13); } else if (M.lin) { auto* l = dynamic_cast<LinearAnalyticMeasurementModelGaussianUncertainty*>(Z); br::same(c, br::from(l->HGet()), M.A, "H", 1e-13); if (M.hasu) br::same(c, br::from(l->JGet()), M.B, "J", 1e-13); }
              { Mat b = rnd(gencol(M.m, 4 + k)); M.mu = b; if (M.lin) M.lp->AdditiveNoiseMuSet(br::cv(b)); else M.np->AdditiveNoiseMuSet(br::cv(b)); } break;
    }
    mc::H h; ref::hash(h, y); ref::hash(h, M.A); h(o); c.state(h);
  }
}
// every model of a world with measurements of up to 8 dimensions: all queries for two argument sets, in two orders
SCENARIO(models_large, 8)
{
  int n = 1 + c.choose(5, "n"), rp = c.choose(2, "noise"); World w(n, rp ? 2 : 0, rp ? 2 : 0, true); int ns = (int)w.sys.size(), mi = c.choose(ns + (int)w.meas.size(), "model"); bool sys = mi < ns; Model& M = sys ? *w.sys[mi] : *w.meas[mi - ns]; int first = c.choose(2, "order"); bool sing = sys && mi == 2;
  for (int t = 0; t < 2; t++) { int a = first ? 1 - t : t; Mat x = rnd(gencol(n, 2 + 5 * a)), u = rnd(sys && M.lin ? w.uin(M, a) : gencol(2, 3 + 4 * a)); CV X = br::cv(x), U = br::cv(u); if (!M.hasu) U = CV(1); Mat y = M.f(x, u), C = M.cov(x), z = rnd(y + gencol(M.m, 3 + t) * (rp ? 1e-3L : 0.2L)); CV Z = br::cv(z); c.act("model %d arguments %d", mi, a);
    br::same(c, br::from(sys ? M.sys->CovarianceGet(U, X) : M.meas->CovarianceGet(U, X)), C, "noise covariance", 1e-12, 1e-300); br::same(c, br::from(sys ? M.sys->PredictionGet(U, X) : M.meas->PredictionGet(U, X)), y, "prediction", 1e-10); br::same(c, br::from(sys ? M.sys->df_dxGet(U, X) : M.meas->df_dxGet(U, X)), M.df(x, u), "Jacobian", 1e-12);
    if (!sing) { double p = sys ? (M.hasu ? M.sys->ProbabilityGet(Z, X, U) : M.sys->ProbabilityGet(Z, X)) : (M.hasu ? M.meas->ProbabilityGet(Z, X, U) : M.meas->ProbabilityGet(Z, X)); c.rel(p, (double)ref::gauss_pdf(z, y, C), "density", 1e-7); }
    mc::rng.norm = []() { return 0.0; }; CV g = sys ? (M.hasu ? M.sys->Simulate(X, U) : M.sys->Simulate(X)) : (M.hasu ? M.meas->Simulate(X, U) : M.meas->Simulate(X)); mc::rng.norm = nullptr; br::same(c, br::from(g), y, "simulation for answers zero", 1e-9); mc::H h; ref::hash(h, y); ref::hash(h, C); h(mi); c.state(h); }
}
// simulation: affine in the normal answers with the noise covariance
SCENARIO(simulate, 4)
{
  int n = 1 + c.choose(3, "n"), k = c.choose(9, "model"), a = c.choose(2, "arguments"); World w(n); Model& M = k < 4 ? *w.sys[k < 2 ? k : k + 1] : *w.meas[k - 4]; Mat x = rnd(gencol(n, 2 + 5 * a)), u = rnd(M.lin ? w.uin(M, a) : gencol(2, 3 + 4 * a)); CV X = br::cv(x), U = br::cv(u); Mat A(M.m, M.m), y = M.f(x, u);
  for (int i = 0; i < M.m; i++) { c.act("answers e%d", i); int pos = 0; mc::rng.norm = [&]() { return pos++ == i ? 1.0 : 0.0; }; CV g = k < 4 ? (M.hasu ? M.sys->Simulate(X, U) : M.sys->Simulate(X)) : (M.hasu ? M.meas->Simulate(X, U) : M.meas->Simulate(X)); mc::rng.norm = nullptr; c.eq(pos, M.m, "answers used"); Mat gg = br::from(g); for (int r = 0; r < M.m; r++) A(r, i) = gg(r) - y(r); }
  br::same(c, A * ref::T(A), M.cov(x), "covariance of the simulation", 1e-9); mc::H h; ref::hash(h, y); c.state(h);
}
// exchanging the density of a model, also starting with none
template <class T> struct Raw { alignas(T) unsigned char b[sizeof(T)]; T* p; template <class... A> Raw(A... a) { memset(b, 0xAB, sizeof b); p = new (b) T(a...); } ~Raw() { p->~T(); } };
SCENARIO(exchange, 4)
{
  int n = 1 + c.choose(2, "n"), start = c.choose(5, "initial"); World w(n); static const int sx[] = {0, 1, 3, 4}; Raw<SystemModel<CV>> sm(start < 4 ? (ConditionalPdf<CV, CV>*)w.sys[sx[start]]->pdf() : NULL); Raw<MeasurementModel<CV, CV>> zm(start < 4 ? (ConditionalPdf<CV, CV>*)w.meas[start]->pdf() : NULL);
  int cur = start; if (start == 4) { c.ok(sm.p->SystemPdfGet() == NULL, "density of a system model without density"); c.ok(zm.p->MeasurementPdfGet() == NULL, "density of a measurement model without density"); }
  for (int k = 0; k < 3; k++) {
    int o = c.choose(5, "density"); if (o < 4) { sm.p->SystemPdfSet(w.sys[sx[o]]->pdf()); zm.p->MeasurementPdfSet(w.meas[o]->pdf()); cur = o; } c.act("set %d", o); if (cur == 4) continue;
    Model &a = *w.sys[sx[cur]], &b = *w.meas[cur]; Mat x = rnd(gencol(n, 3 + k)), u = rnd(a.lin ? w.uin(a, k % 2) : gencol(2, 3)), s = rnd(w.s[k % 2]); CV X = br::cv(x), U = br::cv(u), Sv = br::cv(s); Mat y = a.f(x, u), z = b.f(x, s);
    c.ok(sm.p->SystemPdfGet() == a.pdf() && zm.p->MeasurementPdfGet() == b.pdf(), "density"); c.eq(sm.p->StateSizeGet(), a.m, "state size"); c.eq(zm.p->MeasurementSizeGet(), b.m, "measurement size"); c.eq(sm.p->SystemWithoutInputs(), !a.hasu, "inputs"); c.eq(zm.p->SystemWithoutSensorParams(), !b.hasu, "sensor parameters");
    SystemModel<CV> cs(*sm.p); MeasurementModel<CV, CV> cz(*zm.p);
    for (int t = 0; t < 2; t++) { SystemModel<CV>& S = t ? cs : *sm.p; MeasurementModel<CV, CV>& Z = t ? cz : *zm.p; CV Y = br::cv(y), V = br::cv(z); y = br::from(Y); z = br::from(V);
      c.rel((double)(a.hasu ? S.ProbabilityGet(Y, X, U) : S.ProbabilityGet(Y, X)), (double)ref::gauss_pdf(y, a.f(x, u), a.cov(x)), "transition density", 1e-8); c.rel((double)(b.hasu ? Z.ProbabilityGet(V, X, Sv) : Z.ProbabilityGet(V, X)), (double)ref::gauss_pdf(z, b.f(x, s), b.cov(x)), "likelihood", 1e-8);
      mc::rng.norm = []() { return 0.0; }; CV g = a.hasu ? S.Simulate(X, U) : S.Simulate(X), h = b.hasu ? Z.Simulate(X, Sv) : Z.Simulate(X); mc::rng.norm = nullptr; br::same(c, br::from(g), a.f(x, u), "simulated state", 1e-9); br::same(c, br::from(h), b.f(x, s), "simulated measurement", 1e-9); }
    c.state(mc::H()(start)(cur)(k)(n));
  }
}
// models on discrete tables, with and without input; simulation for every cell boundary of the uniform answer
SCENARIO(discrete, 8)
{
  int n = 1 + c.choose(3, "states"), nu = c.choose(4, "inputs"), pat = c.choose(3, "table"); vector<int> d; d.push_back(n); if (nu) d.push_back(nu); std::unique_ptr<DiscreteConditionalPdf> p(new DiscreteConditionalPdf(n, (int)d.size(), d.data()));
  auto val = [&](int y, int x, int u) { double s = 0, v = 0; for (int k = 0; k < n; k++) { double q = pat == 2 ? (k == (x + u) % n) : 1 + (k * 3 + x * 5 + u * 2) % (pat ? 4 : 3); if (pat == 1 && n > 1 && k == (x + 2 * u) % n) q = 0; s += q; if (k == y) v = q; } return v / s; };
  for (int y = 0; y < n; y++) for (int x = 0; x < n; x++) for (int u = 0; u < (nu ? nu : 1); u++) { vector<int> a(1, x); if (nu) a.push_back(u); p->ProbabilitySet(val(y, x, u), y, a); }
  DiscreteSystemModel m1(p.get()), m2(m1); MeasurementModel<int, int> z(p.get()); int which = c.choose(3, "model"); SystemModel<int>& S = which == 1 ? m2 : m1;
  c.eq(m1.NumStatesGet(), n, "number of states"); c.eq(m2.NumStatesGet(), n, "number of states of a copy"); c.eq(S.StateSizeGet(), 1, "state size"); c.eq(z.MeasurementSizeGet(), 1, "measurement size"); c.eq(S.SystemWithoutInputs(), !nu, "inputs"); c.eq(z.SystemWithoutSensorParams(), !nu, "sensor parameters");
  for (int k = 0; k < 2; k++) {
    int x = c.choose(n, "x"), u = nu ? c.choose(nu, "u") : 0; c.act("x %d u %d", x, u);
    if (k == 0) { int y = c.choose(n, "y"); double q = which == 2 ? (nu ? z.ProbabilityGet(y, x, u) : z.ProbabilityGet(y, x)) : (nu ? S.ProbabilityGet(y, x, u) : S.ProbabilityGet(y, x)); c.near(q, val(y, x, u), "probability", 1e-12); }
    else { double lo = 0; for (int y = 0; y < n; y++) { double w = val(y, x, u); if (w > 0) for (double t : {0.01, 0.5, 0.99}) { double a = lo + w * t; mc::rng.uni = [a]() { return a; }; int g = which == 2 ? (nu ? z.Simulate(x, u) : z.Simulate(x)) : (nu ? S.Simulate(x, u) : S.Simulate(x)); mc::rng.uni = nullptr; c.eq(g, y, "simulated value"); } lo += w; } }
    c.state(mc::H()(n)(nu)(pat)(which)(x)(u)(k));
  }
}

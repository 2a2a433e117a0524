// C12: (extended) Kalman filter recursion for every history of updates, measurement dimensions, models and resets
#include "mc_main.h"
#include "kfworld.h"
using namespace kw;

static void alloc(Ctx& c, ExtendedKalmanFilter& f, int a)   // preallocation must not matter
{
  if (a == 1) { f.AllocateMeasModel(2u); f.AllocateMeasModelExt(3u); } if (a == 2) { vector<unsigned> v{1, 3, 2, 4, 2}; f.AllocateMeasModel(v); f.AllocateMeasModelExt(v); }
}
static void history(Ctx& c, int n, int pat, int a, const std::function<int(World&, int)>& next, int depth, int qpat = 0, int rpat = 0, bool big = false)
{
  World w(n, qpat, rpat, big); Ref r0 = prior_of(n, pat); Gaussian prior(br::cv(r0.x), br::sm(r0.P)); Ref rd; rd.x = br::from(prior.ExpectedValueGet()); rd.P = br::from(prior.CovarianceGet());
  { ExtendedKalmanFilter f(&prior); Filt ft{w, f, rd}; alloc(c, f, a); ft.chk(c, "initially"); c.ok(f.PostGet() != &prior, "the posterior is the prior object");
    for (int k = 0; k < depth; k++) op(c, ft, next(w, k)); }
  Mat x1 = br::from(prior.ExpectedValueGet()), P1 = br::from(prior.CovarianceGet()); c.ok(x1.a == rd.x.a && P1.a == rd.P.a, "the prior was modified");
}
#define ANY [&](World& w, int) { return c.choose(nops(w), "op"); }
SCENARIO(dim1, 8) { int pat = c.choose(4, "prior"), a = c.choose(3, "alloc"); c.choose(1, ""); history(c, 1, pat, a, ANY, 2); }
SCENARIO(dim2, 8) { int pat = c.choose(5, "prior"), a = c.choose(3, "alloc"); c.choose(1, ""); history(c, 2, pat, a, ANY, 2); }
SCENARIO(dim2_deep, 8) { static const int al[] = {0, 6, 3, 8, 12, 17, 22, 33}; int pat = c.choose(2, "prior"); c.choose(1, ""); history(c, 2, pat, 0, [&](World& w, int) { return al[c.choose(8, "op")] % nops(w); }, c.thorough ? 5 : 4); }
SCENARIO(dim3, 8) { int pat = c.choose(5, "prior"); c.choose(1, ""); history(c, 3, pat, 0, ANY, c.thorough ? 3 : 2); }
SCENARIO(dim4, 8) { int pat = c.choose(3, "prior"); c.choose(1, ""); history(c, 4, pat, 2, ANY, 2); }
SCENARIO(sizes, 8) { static const int d[] = {5, 6, 7, 8, 9, 10, 12}; int n = d[c.choose(7, "n")], pat = c.choose(2, "prior"), a = c.choose(2, "alloc"); history(c, n, pat, a, ANY, 1); }
// process noise, prior or measurement noise of incomplete rank
SCENARIO(singular_noise, 8) { int n = 1 + c.choose(4, "n"), q = 5 + c.choose(3, "process noise"), pat = c.choose(4, "prior"); c.choose(1, ""); static const int ps[] = {0, 5, 6, 7}; history(c, n, ps[pat], 0, [&](World& w, int k) { return k < 2 ? c.choose(8, "predict") : 8 + 2 * c.choose(4, "measure"); }, 3, q); }
SCENARIO(singular_prior, 8) { int n = 1 + c.choose(4, "n"), pat = 5 + c.choose(3, "prior"); c.choose(1, ""); history(c, n, pat, 0, ANY, 1); }
SCENARIO(scales, 8) { int n = 1 + c.choose(4, "n"), q = c.choose(5, "process noise"), r = c.choose(4, "measurement noise"), pat = c.choose(2, "prior"); static const int rs[] = {0, 1, 3, 4}; history(c, n, pat, 0, ANY, 1, q, rs[r]); }
SCENARIO(big_measurements, 8) { static const int d[] = {2, 3, 5, 8, 9}; int n = d[c.choose(5, "n")], pat = c.choose(2, "prior"), a = c.choose(3, "alloc"); history(c, n, pat, a, [&](World& w, int k) { int nm = (int)w.meas.size(), m0 = nm - 6; int o = c.choose(3, "op"); if (o == 0) return 1; if (o == 1) return 8 + 2 * (m0 + c.choose(6, "model")) + k % 2; return 8 + 2 * nm + 6 + nnis(w) - 1 - c.choose(4, "nis"); }, 2, 0, 0, true); }
SCENARIO(periodic, 8)
{ int n = 1 + c.choose(3, "n"), len = 1 + c.choose(2, "len"); vector<int> word; static const int al[] = {0, 1, 5, 2, 8, 12, 16, 25, 33}; for (int i = 0; i < len; i++) word.push_back(al[c.choose(9, "op")]); World w0(n); Ref r = prior_of(n, 0); Gaussian prior(br::cv(r.x), br::sm(r.P)); ExtendedKalmanFilter f(&prior); Filt ft{w0, f, r};
  for (int k = 0; k < 25; k++) { op(c, ft, word[k % len] % nops(w0)); double mx = 0; for (auto v : ft.r.x.a) mx = std::fmax(mx, std::fabs((double)v)); for (auto v : ft.r.P.a) mx = std::fmax(mx, std::fabs((double)v)); if (!(mx < 1e4)) break; } }   // diverging words end early
// two filters over shared models
SCENARIO(interleaved, 8)
{
  World w(2); Ref r1 = prior_of(2, 0), r2 = prior_of(2, 1); Gaussian p1(br::cv(r1.x), br::sm(r1.P)), p2(br::cv(r2.x), br::sm(r2.P)); ExtendedKalmanFilter f1(&p1), f2(&p2); Filt a{w, f1, r1}, b{w, f2, r2}; static const int al[] = {0, 6, 4, 9, 13, 20, 32, 38};
  for (int k = 0; k < 3; k++) { int who = c.choose(2, "filter"), o = al[c.choose(8, "op")] % nops(w); op(c, who ? b : a, o); a.chk(c, "filter 1"); b.chk(c, "filter 2"); }
}
// filters of different state dimension over one process, and a reset in the middle (same and other dimension)
SCENARIO(reset, 8)
{
  int n = 1 + c.choose(3, "n"), n2 = 1 + c.choose(3, "n after"), o1 = c.choose(4, "op"), viabase = c.choose(2, "via base"); static const int al[] = {0, 6, 12, 30};
  World w(n), v(n2); Ref r = prior_of(n, 0), q = prior_of(n2, 2); Gaussian p1(br::cv(r.x), br::sm(r.P)), p2(br::cv(q.x), br::sm(q.P));
  { ExtendedKalmanFilter f(&p1); Filt a{w, f, r}; op(c, a, al[o1] % nops(w)); c.act("reset"); if (viabase) ((Filter<ColumnVector, ColumnVector>&)f).Reset(&p2); else f.Reset(&p2);
    Filt b{v, f, q}; b.chk(c, "after reset"); for (int k = 0; k < 2; k++) op(c, b, c.choose(nops(v), "op")); }
  Ref x; x.x = q.x; x.P = q.P; agrees(c, &p2, x, "the prior handed to reset");
}
// models changed in place between updates
SCENARIO(model_change, 8)
{
  int n = 2; World w(n); Ref r = prior_of(n, 0); Gaussian p(br::cv(r.x), br::sm(r.P)); ExtendedKalmanFilter f(&p); Filt a{w, f, r};
  for (int k = 0; k < 4; k++) switch (c.choose(7, "op")) {
    case 0: { c.act("ASet"); Mat A = genmat(n, n, 7 + k) * 0.3L; ((LinearAnalyticSystemModelGaussianUncertainty*)w.sys[1]->sys.get())->ASet(br::mx(A)); w.sys[1]->A = A; a.predict(c, 1, 0); break; }
    case 1: { c.act("BSet"); Mat B = genmat(n, 2, 5 + k); ((LinearAnalyticSystemModelGaussianUncertainty*)w.sys[1]->sys.get())->BSet(br::mx(B)); w.sys[1]->B = B; a.predict(c, 1, 1); break; }
    case 2: { c.act("HSet"); Mat H = genmat(1, n, 3 + k); ((LinearAnalyticMeasurementModelGaussianUncertainty*)w.meas[0]->meas.get())->HSet(br::mx(H)); w.meas[0]->A = H; a.measure(c, 0, 1); break; }
    case 3: { c.act("noise"); Mat Q = spd(n, 8 + k); w.sys[0]->lp->AdditiveNoiseSigmaSet(br::sm(Q)); w.sys[0]->S = Q; Mat m = gencol(n, 2 + k); w.sys[0]->lp->AdditiveNoiseMuSet(br::cv(m)); w.sys[0]->mu = m; a.predict(c, 0, 0); break; }
    case 4: { c.act("SystemPdfSet"); w.sys[0]->sys->SystemPdfSet(w.sys[1]->lp.get()); Mat u = w.u[k % 2]; c.ok(f.Update(w.sys[0]->sys.get(), br::cv(u)), "status"); a.r.predict(*w.sys[1], u); a.chk(c, "exchanged system pdf"); w.sys[0]->sys->SystemPdfSet(w.sys[0]->lp.get()); break; }
    case 5: { c.act("MeasurementPdfSet"); w.meas[0]->meas->MeasurementPdfSet(w.meas[3]->pdf()); Mat z = w.z[w.meas[3]->m][k % 2]; c.ok(w.meas[3]->hasu ? f.Update(w.meas[0]->meas.get(), br::cv(z), br::cv(w.s[0])) : f.Update(w.meas[0]->meas.get(), br::cv(z)), "status"); a.r.update(*w.meas[3], z, w.s[0]); a.chk(c, "exchanged measurement pdf"); w.meas[0]->meas->MeasurementPdfSet(w.meas[0]->lp.get()); break; }
    default: a.both(c, 3, 1, 0, k % 2); break;
  }
}
// order of independent measurements does not matter, and stacking them is the same as processing them one by one (linear models)
SCENARIO(batch, 4)
{
  int n = 2 + c.choose(2, "n"), m1 = 1 + c.choose(3, "m1"), m2 = 1 + c.choose(3, "m2"), pats[] = {0, 1, 3}, pat = pats[c.choose(3, "noise")]; Mat H1 = genmat(m1, n, 2), H2 = genmat(m2, n, 7), R1 = spd(m1, 3, pat), R2 = spd(m2, 5, pat), H(m1 + m2, n), RR(m1 + m2, m1 + m2);
  for (int i = 0; i < m1 + m2; i++) { for (int j = 0; j < n; j++) H(i, j) = i < m1 ? H1(i, j) : H2(i - m1, j); for (int j = 0; j < m1 + m2; j++) if (i < m1 && j < m1) RR(i, j) = R1(i, j); else if (i >= m1 && j >= m1) RR(i, j) = R2(i - m1, j - m1); }
  MP a = Model::linear(false, H1, NULL, Mat(m1, 1), R1), b = Model::linear(false, H2, NULL, Mat(m2, 1), R2), ab = Model::linear(false, H, NULL, Mat(m1 + m2, 1), RR); Mat z1 = gencol(m1, 4), z2 = gencol(m2, 5), z(m1 + m2, 1); for (int i = 0; i < m1 + m2; i++) z(i) = i < m1 ? z1(i) : z2(i - m1);
  Ref r = prior_of(n, 0); Gaussian p(br::cv(r.x), br::sm(r.P)); ExtendedKalmanFilter f1(&p), f2(&p), f3(&p); f1.Update(a->meas.get(), br::cv(z1)); f1.Update(b->meas.get(), br::cv(z2)); f2.Update(b->meas.get(), br::cv(z2)); f2.Update(a->meas.get(), br::cv(z1)); f3.Update(ab->meas.get(), br::cv(z)); c.act("batch");
  br::same(c, br::from(f1.PostGet()->ExpectedValueGet()), br::from(f2.PostGet()->ExpectedValueGet()), "order of measurements", 1e-7); br::same(c, br::from(f1.PostGet()->ExpectedValueGet()), br::from(f3.PostGet()->ExpectedValueGet()), "stacked measurements", 1e-7); br::same(c, br::from(f1.PostGet()->CovarianceGet()), br::from(f3.PostGet()->CovarianceGet()), "stacked measurements covariance", 1e-7);
}

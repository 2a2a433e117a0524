// C15: particle filter with extended Kalman proposal (one EKF per particle)
#include "mc_main.h"
#include "kfworld.h"
#include <filter/EKparticlefilter.h>
#include <pdf/EKF_proposaldensity.h>
using namespace kw; typedef ColumnVector CV;
static const int NEVER = 1000000;
struct P1 { Mat x, P; double w; };
static R gpdf(const Mat& x, const Mat& m, const Mat& C) { return ref::gauss_pdf(x, m, C); }
static double script(long k) { return 1.3 * std::sin(1.7 * (double)k + 0.4) + 0.1 * (double)(k % 3); }
struct EK {
  World& w; EKParticleFilter& f; vector<P1> p; int period; double thr; long steps = 0, nk = 0;
  EK(World& w_, EKParticleFilter& f_, MCPdf<CV>& prior, int per, double t) : w(w_), f(f_), period(per), thr(t) { load(prior); }
  void load(MCPdf<CV>& prior) { p.clear(); double s = 0; for (auto& q : prior.ListOfSamplesGet()) { p.push_back(P1{br::from(q.ValueGet()), br::from(prior.CovarianceGet()), (double)q.WeightGet()}); s += p.back().w; } for (auto& q : p) q.w /= s; }
  // posterior must be a resampled version of p: values of particles with weight, all of equal weight; adopt it
  void resampled(Ctx& c, const vector<WeightedSample<CV>>& now) { vector<P1> q; c.eq((long)now.size(), (long)p.size(), "number of particles"); for (auto& s : now) { Mat v = br::from(s.ValueGet()); int hit = -1; for (int i = 0; i < (int)p.size(); i++) { double d = 0, sc = 1; for (size_t k = 0; k < v.a.size(); k++) { d = std::fmax(d, std::fabs((double)(v.a[k] - p[i].x.a[k]))); sc = std::fmax(sc, std::fabs((double)v.a[k])); } if (d < 1e-9 * sc && p[i].w > 0) { hit = i; break; } } c.ok(hit >= 0, "resampling produced a value that no particle of positive weight had"); q.push_back(p[hit]); q.back().w = 1.0 / p.size(); q.back().x = v; } p = q; }
  bool update(Ctx& c, int si, int mi, int k)   // false: weights too small to compare
  {
    Model &a = *w.sys[si], &b = *w.meas[mi]; Mat u = w.uin(a, k), s = w.s[k], z = w.z[b.m][k]; CV uu = br::cv(u), ss = br::cv(s), zz = br::cv(z); bool ok, due = period > 0 && steps > 0 && steps % period == 0; long first = nk; mc::rng.norm = [this]() { return script(nk++); };
    c.act("update system %d measurement %d values %d", si, mi, k);
    if (a.hasu && b.hasu) ok = f.Update(a.sys.get(), uu, b.meas.get(), zz, ss); else if (a.hasu) ok = f.Update(a.sys.get(), uu, b.meas.get(), zz); else if (b.hasu) ok = f.Update(a.sys.get(), b.meas.get(), zz, ss); else ok = f.Update(a.sys.get(), b.meas.get(), zz);
    const vector<WeightedSample<CV>>& now = f.PostGet()->ListOfSamplesGet(); steps++; c.eq((long)f.TimeStepGet(), steps, "time step"); c.eq((long)now.size(), (long)p.size(), "number of particles"); int n = a.n;
    c.eq(nk - first, (long)p.size() * n, "normal draws used");
    if (due) {                                                        // resampled before the proposal: identify each particle's origin by the draw it explains
      vector<P1> q; for (size_t i = 0; i < now.size(); i++) { Mat v = br::from(now[i].ValueGet()), e(n, 1); for (int j = 0; j < n; j++) e(j) = script(first + i * n + j); int hit = -1; for (size_t o = 0; o < p.size() && hit < 0; o++) if (p[o].w > 0) { Ref r; r.x = p[o].x; r.P = p[o].P; r.predict(a, u); r.update(b, z, s); Mat d = r.x + ref::chol(r.P) * e - v; double m = 0, sc = 1; for (size_t t = 0; t < d.a.size(); t++) { m = std::fmax(m, std::fabs((double)d.a[t])); sc = std::fmax(sc, std::fabs((double)v.a[t])); } if (m < 1e-7 * sc) hit = (int)o; } c.ok(hit >= 0, fmt("particle %zu after resampling and proposal comes from no particle of positive weight", i)); q.push_back(p[hit]); q.back().w = 1.0 / p.size(); } p = q; }
    double tot = 0, best = 0; vector<P1> q = p;
    for (size_t i = 0; i < p.size(); i++) { Ref r; r.x = p[i].x; r.P = p[i].P; r.predict(a, u); r.update(b, z, s); Mat e(n, 1); for (int j = 0; j < n; j++) e(j) = script(first + i * n + j); Mat x = r.x + ref::chol(r.P) * e; R wf = gpdf(z, b.f(x, s), b.cov(x)) * gpdf(x, a.f(p[i].x, u), a.cov(p[i].x)) / gpdf(x, r.x, r.P); q[i].x = x; q[i].P = r.P; q[i].w = (double)(p[i].w * wf); tot += q[i].w; best = std::fmax(best, q[i].w); }
    if (!(best > 1e-200) || !(tot < 1e200)) return false;
    for (auto& t : q) t.w /= tot; p = q; c.ok(ok, "status"); double s2 = 0; for (auto& t : p) s2 += t.w * t.w; bool dyn = thr > 0 && 1 / s2 < thr; if (thr > 0 && std::fabs(1 / s2 - thr) < 1e-6) return false;
    if (dyn) { resampled(c, now); for (auto& t : now) c.near(t.WeightGet(), 1.0 / p.size(), "weight after resampling"); }
    else for (size_t i = 0; i < p.size(); i++) { br::same(c, br::from(now[i].ValueGet()), p[i].x, fmt("particle %zu", i).c_str(), 1e-7); c.near(now[i].WeightGet(), p[i].w, fmt("weight of particle %zu", i).c_str(), 1e-7); }
    mc::H h; for (auto& t : p) { ref::hash(h, t.x); h(t.w); } c.state(h); return true;
  }
};
static void mk(MCPdf<CV>& prior, int N, int n, int pat) { vector<WeightedSample<CV>> l; for (int i = 0; i < N; i++) { WeightedSample<CV> s(n); s.ValueSet(br::cv(gencol(n, 3 + i * 4 + pat) * 0.5L + gencol(n, 1 + i) * 0.1L + Mat(n, 1, 0.037L * i))); s.WeightSet(pat == 0 ? 1.0 : pat == 1 ? 1.0 + i : (i % 2 ? 0.0 : 1.0)); l.push_back(s); } prior.ListOfSamplesSet(l); }
static const int SYS[] = {0, 1, 3, 4};                                // the noise-free model has no density
static void one(Ctx& c, EK& e, int& alive) { int s = SYS[c.choose(4, "system")], m = c.choose((int)e.w.meas.size() > 8 ? 8 : (int)e.w.meas.size(), "measurement"), k = c.choose(2, "value"); if (!e.update(c, s, m, k)) { alive = 0; c.note("likelihoods too small"); } }
static void history(Ctx& c, int N, int n, int pat, int per, double thr, int depth)
{
  World w(n); MCPdf<CV> prior(N, n); mk(prior, N, n, pat); vector<WeightedSample<CV>> before = prior.ListOfSamplesGet(); { EKParticleFilter f(&prior, per || thr > 0 ? per : NEVER, thr); EK e(w, f, prior, per, thr); long uk = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * uk++, 1.0); }; int alive = 1; for (int k = 0; k < depth && alive; k++) one(c, e, alive); }
  auto& after = prior.ListOfSamplesGet(); for (size_t i = 0; i < before.size(); i++) c.ok(br::from(after[i].ValueGet()).a == br::from(before[i].ValueGet()).a && after[i].WeightGet() == before[i].WeightGet(), "the prior was modified");
}
SCENARIO(plain, 8) { int n = 1 + c.choose(3, "n"), N = 1 + c.choose(3, "particles"), pat = c.choose(3, "weights"); history(c, N, n, pat, 0, 0, c.thorough && n == 2 ? 2 : 1); }
SCENARIO(plain2, 8) { int n = 1 + c.choose(2, "n"), N = 2 + c.choose(1, "particles"), pat = c.choose(2, "weights"); history(c, N, n, pat, 0, 0, 2); }
static const int AL[6][3] = {{0, 0, 0}, {1, 1, 1}, {2, 2, 0}, {3, 4, 1}, {1, 2, 0}, {0, 5, 1}};
static void word(Ctx& c, int N, int n, int pat, int per, double thr, int depth)
{ World w(n); MCPdf<CV> prior(N, n); mk(prior, N, n, pat); EKParticleFilter f(&prior, per || thr > 0 ? per : NEVER, thr); EK e(w, f, prior, per, thr); long uk = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * uk++, 1.0); }; for (int k = 0; k < depth; k++) { const int* a = AL[c.choose(6, "op")]; if (!e.update(c, SYS[a[0]], a[1], a[2])) return; } }
SCENARIO(static_resampling, 8) { int n = 1 + c.choose(2, "n"), per = 1 + c.choose(3, "period"), N = 3 + c.choose(2, "particles") * 2; word(c, N, n, 1, per, 0, c.thorough ? 5 : N == 3 ? 4 : 3); }
SCENARIO(dynamic_resampling, 8) { static const double T[] = {1.2, 2.2, 2.9, 100}; int n = 1 + c.choose(2, "n"), t = c.choose(4, "threshold"), N = 3 + c.choose(2, "particles") * 2; word(c, N, n, 0, 0, T[t], c.thorough ? 4 : 3); }
SCENARIO(sizes, 4) { static const int S[] = {1, 4, 7, 20, 40}; int N = S[c.choose(5, "particles")], n = 1 + c.choose(4, "n"), per = c.choose(2, "period"); word(c, N, n, 1, per, 0, 2); }
SCENARIO(extreme_answers, 4) { static const double A[] = {0.0, 1.0 / 4294967296.0, 0.5, 1 - 1.0 / 4294967296.0}; int per = c.choose(2, "static"), pat = c.choose(3, "weights"), N = 1 + c.choose(4, "particles"); double a0 = A[c.choose(4, "first answer")], a1 = A[c.choose(4, "other answers")]; World w(2); MCPdf<CV> prior(N, 2); mk(prior, N, 2, pat); EKParticleFilter f(&prior, per, per ? 0 : 1e6); EK e(w, f, prior, per, per ? 0 : 1e6); long uk = 0; mc::rng.uni = [&]() { return uk++ == 0 ? a0 : a1; }; for (int k = 0; k < 3; k++) if (!e.update(c, SYS[k % 2], k, k % 2)) return; }
// over all answers of a grid a particle survives in proportion to its weight
SCENARIO(proportion, 4)
{
  int pat = c.choose(3, "weights"), M = 40; c.choose(1, ""); c.choose(1, ""); World w(1); MCPdf<CV> prior(2, 1); mk(prior, 2, 1, pat); double want[2] = {0, 0}, got[2] = {0, 0}; Mat xs[2]; { EKParticleFilter f(&prior, NEVER, 0); EK e(w, f, prior, 0, 0); if (!e.update(c, 0, 0, 0)) return; for (int i = 0; i < 2; i++) { want[i] = e.p[i].w; xs[i] = e.p[i].x; } }
  for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) { EKParticleFilter f(&prior, 0, 1e6); EK e(w, f, prior, 0, 1e6); long uk = 0; mc::rng.uni = [&]() { return ((uk++ % 2 ? b : a) + 0.5) / M; }; e.update(c, 0, 0, 0); for (auto& q : e.p) for (int i = 0; i < 2; i++) if (std::fabs((double)(q.x(0) - xs[i](0))) < 1e-9) got[i] += 0.5 / (M * M); }
  for (int i = 0; i < 2; i++) c.near(got[i], want[i], "share of a particle over all answers", 2.5 / M);
}
SCENARIO(reset, 8)
{
  int n = 1 + c.choose(2, "n"), N = 1 + c.choose(3, "particles"), N2 = 1 + c.choose(3, "particles after"), per = c.choose(2, "period"); World w(n); MCPdf<CV> a(N, n), b(N2, n); mk(a, N, n, 1); mk(b, N2, n, 0); long uk = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * uk++, 1.0); };
  EKParticleFilter f(&a, per ? per : NEVER, 0); EK e(w, f, a, per, 0); const int* o = AL[c.choose(6, "op")]; if (!e.update(c, SYS[o[0]], o[1], o[2])) return; c.act("reset"); if (c.choose(2, "via base")) ((Filter<CV, CV>&)f).Reset(&b); else f.Reset(&b); e.load(b); e.steps = f.TimeStepGet(); for (int k = 0; k < 2; k++) { o = AL[c.choose(6, "op")]; if (!e.update(c, SYS[o[0]], o[1], o[2])) return; }
}
SCENARIO(interleaved, 8)
{ World w(2); MCPdf<CV> a(2, 2), b(3, 2); mk(a, 2, 2, 0); mk(b, 3, 2, 1); EKParticleFilter f(&a, NEVER), g(&b, 1); EK e(w, f, a, 0, 0), h(w, g, b, 1, 0); long uk = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * uk++, 1.0); }; for (int k = 0; k < 4; k++) { int who = c.choose(2, "filter"); const int* o = AL[c.choose(4, "op")]; if (!(who ? h : e).update(c, SYS[o[0]], o[1], o[2])) return; } }
// the proposal density itself: for every succession of arguments, covariances and models it is the filtered density of the arguments it was given last
SCENARIO(proposal, 8)
{
  int n = 1 + c.choose(3, "n"); World w(n); vector<Model*> S, Z; for (int i : SYS) S.push_back(w.sys[i].get()); MP still = Model::linear(true, ref::I(n), NULL, Mat(n, 1), spd(n, 3)), exact = Model::linear(false, genmat(2, n, 2), NULL, Mat(2, 1), spd(2, 3)); S.push_back(still.get()); Z.push_back(exact.get()); for (int i = 0; i < 6; i++) Z.push_back(w.meas[i].get());
  int si = c.choose(5, "system"), mi = c.choose(7, "measurement"), late = c.choose(2, "models set later"), len = c.thorough ? 4 : 3; std::unique_ptr<EKFProposalDensity> d(late ? new EKFProposalDensity(w.sys[0]->sys.get(), w.meas[0]->meas.get()) : new EKFProposalDensity(S[si]->sys.get(), Z[mi]->meas.get()));
  for (int k = 0; k < len; k++) {
    if (late || k == 2) { if (k == 2) { si = (si + 1) % 5; mi = (mi + 3) % 7; } d->SystemModelSet(S[si]->sys.get()); d->MeasurementModelSet(Z[mi]->meas.get()); }
    Model &a = *S[si], &b = *Z[mi]; int v = c.choose(2, "arguments"), q = k ? c.choose(4, "query") : 1; Mat x = gencol(n, 3 + v), u = br::from(br::cv(w.uin(a, v))), s = br::from(br::cv(w.s[v])), P = br::from(br::sm(spd(n, 5 + k + v))), z = v ? br::from(br::cv(w.z[b.m][0])) : br::from(br::cv(b.f(x, s))); SymmetricMatrix PP = br::sm(P); c.act("arguments %d query %d", v, q);
    int i = 0; c.eq(d->NumConditionalArgumentsGet(), 2 + a.hasu + b.hasu, "number of arguments"); c.eq(d->DimensionGet(), n, "dimension"); d->ConditionalArgumentSet(i++, br::cv(x)); if (a.hasu) d->ConditionalArgumentSet(i++, br::cv(u)); d->ConditionalArgumentSet(i++, br::cv(z)); if (b.hasu) d->ConditionalArgumentSet(i++, br::cv(s)); d->SampleCovSet(PP);
    Ref r; r.x = x; r.P = P; r.predict(a, u); r.update(b, z, s);
    if (q == 0) br::same(c, br::from(d->ExpectedValueGet()), r.x, "mean", 1e-8); else if (q == 1) br::same(c, br::from(d->CovarianceGet()), r.P, "covariance", 1e-8); else if (q == 2) { Mat y = br::from(br::cv(r.x + gencol(n, 4) * 0.1L)); c.rel((double)d->ProbabilityGet(br::cv(y)), (double)gpdf(y, r.x, r.P), "density", 1e-6); }
    else { long t = 0; mc::rng.norm = [&]() { return script(t++); }; Sample<CV> smp(n); c.ok(d->SampleFrom(smp, SampleMthd::CHOLESKY, NULL), "status of a draw"); mc::rng.norm = nullptr; Mat e(n, 1); for (int j = 0; j < n; j++) e(j) = script(j); br::same(c, br::from(smp.ValueGet()), r.x + ref::chol(r.P) * e, "draw", 1e-7); }
    c.state(hk(r));
  }
}

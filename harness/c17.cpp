// C17: particle smoother (backward weights of Isard and Blake)
#include "mc_main.h"
#include "pfworld.h"
#include <smoother/particlesmoother.h>
using namespace pw; typedef ColumnVector CV;
// weights of the filtered particles given smoothed particles of the next time step; false: nothing fits
static bool backward(const Parts& filt, const Parts& next, const std::function<double(const V&, const V&)>& p, Parts& out)
{
  vector<long double> g(next.size(), 0); for (size_t i = 0; i < next.size(); i++) for (auto& f : filt) g[i] += (long double)f.w * p(next[i].x, f.x);
  out = filt; long double tot = 0; vector<long double> w(filt.size(), 0); for (size_t j = 0; j < filt.size(); j++) { for (size_t i = 0; i < next.size(); i++) if (g[i] > 0) w[j] += (long double)next[i].w * p(next[i].x, filt[j].x) / g[i]; w[j] *= filt[j].w; tot += w[j]; }
  if (!(tot > 0)) return false; for (size_t j = 0; j < filt.size(); j++) out[j].w = (double)(w[j] / tot); return true;
}
static void expect(Ctx& c, const Parts& now, const Parts& ref, const char* who)
{ c.eq((long)now.size(), (long)ref.size(), "number of samples"); double s = 0; for (size_t i = 0; i < ref.size(); i++) { c.ok(veq(now[i].x, ref[i].x), fmt("%s: value of sample %zu", who, i)); c.ok(std::fabs(now[i].w - ref[i].w) <= 1e-7 * ref[i].w + 1e-250, fmt("%s: weight of sample %zu is %.15g, expected %.15g", who, i, now[i].w, ref[i].w)); c.ok(now[i].w >= 0, "negative weight"); s += now[i].w; } c.near(s, 1, "sum of weights"); mc::H h; for (auto& q : ref) h(q.x)(q.w); c.state(h); }
template <class SV> struct Env {
  World<SV, SV> W; int dim; Env(int d) : W(d, d), dim(d) {}
  // system models: 0 kind 0, 1 kind 3 (zero in places), 2 with input 0, 3 with input 1
  double dens(int m, const V& y, const V& x) { return m == 0 ? Move<SV>::dens(0, y, x, V()) : m == 1 ? Move<SV>::dens(3, y, x, V()) : Move<SV>::dens(1, y, x, W.u[m - 2]); }
  bool go(ParticleSmoother<SV>& s, int m, MCPdf<SV>& f) { return m < 2 ? s.Update(m ? &W.s1 : &W.s0, &f) : s.Update(&W.su, Tr<SV>::make(W.u[m - 2]), &f); }
  void step(Ctx& c, ParticleSmoother<SV>& s, Parts& ref, int m, MCPdf<SV>& f)
  { Parts filt = read(&f), out; c.act("smooth with model %d, %zu filtered samples", m, filt.size()); bool ok = go(s, m, f), want = backward(filt, ref, [&](const V& y, const V& x) { return dens(m, y, x); }, out); c.ok(ok == want, fmt("status is %d", (int)ok)); if (want) ref = out; expect(c, read((MCPdf<SV>*)s.PostGet()), ref, want ? "smoothed samples" : "posterior after a failed update"); expect(c, read(&f), filt, "the filtered samples handed in"); }
};
// filtered particle sets
template <class SV> static void fset(MCPdf<SV>& p, int n, int dim, int pat, int shift) { p.NumSamplesSet(n); prior_set(p, n, dim, pat, shift); }
template <class SV> static void hist(Ctx& c, int dim, int depth, const vector<int>& sizes, int pats, int shifts)
{
  Env<SV> e(dim); int n0 = sizes[c.choose((int)sizes.size(), "samples")], pat = c.choose(pats, "weights"); MCPdf<SV> prior(n0, dim); prior_set(prior, n0, dim, pat); Parts p0 = read(&prior); { ParticleSmoother<SV> s(&prior); Parts ref = p0; expect(c, read((MCPdf<SV>*)s.PostGet()), ref, "initially");
    for (int k = 0; k < depth; k++) { int n = sizes[c.choose((int)sizes.size(), "samples")], m = c.choose(4, "model"), fp = c.choose(pats, "weights"), sh = c.choose(shifts, "shift") * (k + 2); MCPdf<SV> f(n, dim); prior_set(f, n, dim, fp, sh); e.step(c, s, ref, m, f); } }
  expect(c, read(&prior), p0, "the prior");
}
SCENARIO(vec1, 8) { hist<CV>(c, 1, 2, {1, 2, 3}, 3, 2); }
SCENARIO(ints, 8) { hist<int>(c, 1, 2, {1, 2, 3}, 2, 2); }
SCENARIO(vec2, 8) { hist<CV>(c, 2, 2, {2, 3, 4}, 2, 2); }
SCENARIO(vec3_deep, 8) { hist<CV>(c, 3, c.thorough ? 4 : 3, {2, 3}, 2, 1); }
SCENARIO(duplicates, 4) { hist<CV>(c, 1, 1, {1, 2, 3, 4, 5}, 4, 4); }
SCENARIO(sizes, 4) { hist<CV>(c, 2, 1, {1, 5, 8, 16, 33, 100}, 3, 1); }
// transition densities and weights of very different size
template <class SV> static void magnitudes(Ctx& c, int dim, const vector<int>& sizes)
{
  Env<SV> e(dim); Log lg; int kd = 4 + c.choose(3, "density"), n0 = sizes[c.choose((int)sizes.size(), "samples")], n = sizes[c.choose((int)sizes.size(), "samples")], pat = c.choose(6, "weights"), fp = c.choose(6, "weights"), sh = c.choose(4, "shift") * 2, inp = c.choose(2, "input");
  MCPdf<SV> prior(n0, dim), f(n, dim); prior_set(prior, n0, dim, n0 == 1 ? 0 : pat); prior_set(f, n, dim, n == 1 ? 0 : fp, sh); Move<SV> mv(dim, inp ? 2 : 1, kd, &lg); SystemModel<SV> sm(&mv); V u = inp ? e.W.u[1] : V(); ParticleSmoother<SV> s(&prior); Parts ref = read(&prior), filt = read(&f), out; c.act("smooth");
  for (int k = 0; k < 2; k++) { bool want = backward(filt, ref, [&](const V& y, const V& x) { return Move<SV>::dens(kd, y, x, u); }, out); c.ok(want, "the reference has no weight left"); bool ok = inp ? s.Update(&sm, Tr<SV>::make(u), &f) : s.Update(&sm, &f); c.ok(ok, "status"); ref = out; expect(c, read((MCPdf<SV>*)s.PostGet()), ref, "smoothed samples"); expect(c, read(&f), filt, "the filtered samples handed in"); prior_set(f, n, dim, n == 1 ? 0 : (fp + 1) % 6, sh + 1); filt = read(&f); }
}
SCENARIO(magnitudes_vec, 8) { magnitudes<CV>(c, 2, {1, 2, 3, 6, 20}); }
SCENARIO(magnitudes_int, 8) { magnitudes<int>(c, 1, {1, 2, 5, 9}); }
SCENARIO(dimensions, 4) { int d = 4 + c.choose(3, "dim"); hist<CV>(c, d, 1, {1, 2, 4, 7}, 3, 2); }
// impossible transitions
SCENARIO(impossible, 4) { Env<CV> e(1); int sh = c.choose(2, "far") ? 50 : 3, m2 = c.choose(4, "model"), n = 1 + c.choose(3, "samples"); MCPdf<CV> prior(3, 1), f(n, 1), g(2, 1); prior_set(prior, 3, 1, 2); prior_set(f, n, 1, 1, sh); prior_set(g, 2, 1, 2, 1); ParticleSmoother<CV> s(&prior); Parts ref = read(&prior); e.step(c, s, ref, 1, f); e.step(c, s, ref, m2, g); }
// smoothing the record of a real forward filter, two smoothers interleaved and resets
SCENARIO(interleaved, 4)
{ Env<CV> e(1); MCPdf<CV> p1(2, 1), p2(3, 1); prior_set(p1, 2, 1, 2); prior_set(p2, 3, 1, 1, 1); ParticleSmoother<CV> s(&p1), t(&p2); Parts a = read(&p1), b = read(&p2); for (int k = 0; k < 3; k++) { int who = c.choose(2, "who"), m = c.choose(4, "model"), n = 2 + c.choose(2, "samples"); MCPdf<CV> f(n, 1); prior_set(f, n, 1, k % 3, k); if (who) e.step(c, s, a, m, f); else e.step(c, t, b, m, f); expect(c, read((MCPdf<CV>*)s.PostGet()), a, "smoother 1"); expect(c, read((MCPdf<CV>*)t.PostGet()), b, "smoother 2"); } }
SCENARIO(reset, 4)
{ Env<CV> e(2); int n1 = 1 + c.choose(3, "n"), n2 = 1 + c.choose(3, "n after"), base = c.choose(2, "base"); MCPdf<CV> p1(n1, 2), p2(n2, 2), f(2, 2); prior_set(p1, n1, 2, 2); prior_set(p2, n2, 2, 1, 1); prior_set(f, 2, 2, 2, 2); Parts b = read(&p2); { ParticleSmoother<CV> s(&p1); Parts a = read(&p1); e.step(c, s, a, c.choose(4, "model"), f); c.act("reset"); if (base) ((BackwardFilter<CV>&)s).Reset(&p2); else s.Reset(&p2); expect(c, read((MCPdf<CV>*)s.PostGet()), b, "after reset"); Parts r = b; e.step(c, s, r, c.choose(4, "model"), f); } expect(c, read(&p2), b, "the prior handed to reset"); }
SCENARIO(forward_backward, 4)
{
  Env<CV> e(1); MCPdf<CV> prior(3, 1); prior_set(prior, 3, 1, 2); BootstrapFilter<CV, CV> f(&prior, 1000000, 0); vector<std::unique_ptr<MCPdf<CV>>> rec; vector<int> ms; rec.emplace_back(new MCPdf<CV>(*f.PostGet()));
  for (int k = 0; k < 3; k++) { int m = c.choose(4, "model"); ms.push_back(m); bool ok = m < 2 ? f.Update(m ? &e.W.s1 : &e.W.s0, e.W.lm[0].get(), Tr<CV>::make(e.W.z[k % 2])) : f.Update(&e.W.su, Tr<CV>::make(e.W.u[m - 2]), e.W.lm[3].get(), Tr<CV>::make(e.W.z[0])); c.ok(ok, "status"); rec.emplace_back(new MCPdf<CV>(*f.PostGet())); }
  ParticleSmoother<CV> s(rec[3].get()); Parts ref = read(rec[3].get()); for (int k = 2; k >= 0; k--) e.step(c, s, ref, ms[k], *rec[k]);
}

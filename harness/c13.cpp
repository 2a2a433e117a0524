// C13: iterated extended Kalman filter: every measurement update relinearises around the last estimate
#include "mc_main.h"
#include "kfworld.h"
using namespace kw;
struct Close {};                                                      // the innovation lies on the threshold: rounding decides
static void history(Ctx& c, int n, int pat, int it, double thr, const std::function<int(World&, int)>& next, int depth, bool prealloc = false, int qpat = 0)
{
  World w(n, qpat); Ref r0 = prior_of(n, pat); Gaussian prior(br::cv(r0.x), br::sm(r0.P)); InnovationCheck chk(thr < 0 ? 0 : thr); IteratedExtendedKalmanFilter f(&prior, it, thr >= 0 ? &chk : NULL);
  if (prealloc) { vector<unsigned> v{2, 1, 3}; f.AllocateMeasModelIExt(v); f.AllocateMeasModelIExt(4u); f.AllocateMeasModel(v); }
  Filt ft{w, f, r0, [&](Ref& r, const Model& m, const Mat& z, const Mat& s) { bool close; r.iterate(m, z, s, it, thr, &close); if (close) throw Close(); }};
  ft.chk(c, "initially"); try { for (int k = 0; k < depth; k++) op(c, ft, next(w, k)); } catch (Close&) { c.note("innovation on the threshold"); }
  agrees(c, &prior, r0, "the prior");
}
static const int ITS[] = {1, 2, 3, 5};
static const double THR[] = {-1, 0, 1e-8, 1e-3, 0.05, 0.5, 2, 1e9};
#define ANY [&](World& w, int) { return c.choose(nops(w), "op"); }
// operations with non-linear measurement models of the world, and two system updates
static int nlop(World& w, Ctx& c) { vector<int> v{0, 6, 4}; for (int i = 0; i < (int)w.meas.size(); i++) if (!w.meas[i]->lin) { v.push_back(8 + 2 * i); v.push_back(9 + 2 * i); } v.push_back(8 + 2 * (int)w.meas.size() + 2); v.push_back(8 + 2 * (int)w.meas.size() + 3); return v[c.choose((int)v.size(), "op")]; }
#define NL [&](World& w, int) { return nlop(w, c); }
SCENARIO(dim1, 4) { int pat = c.choose(3, "prior"), it = ITS[c.choose(4, "iterations")]; double t = THR[c.choose(8, "threshold")]; history(c, 1, pat, it, t, NL, 2); }
SCENARIO(dim2, 8) { int pat = c.choose(4, "prior"), it = ITS[c.choose(4, "iterations")]; double t = THR[c.choose(8, "threshold")]; history(c, 2, pat, it, t, NL, 2); }
SCENARIO(dim3, 8) { int pat = c.choose(3, "prior"), it = ITS[c.choose(4, "iterations")]; double t = THR[c.choose(8, "threshold")]; history(c, 3, pat, it, t, NL, 2, true); }
SCENARIO(all_ops, 8) { int n = 1 + c.choose(4, "n"), it = ITS[1 + c.choose(2, "iterations")]; double t = THR[c.choose(2, "threshold") * 4]; history(c, n, 0, it, t, ANY, 2); }
SCENARIO(deep, 8) { int it = ITS[1 + c.choose(2, "iterations")]; double t = THR[c.choose(3, "threshold") * 2]; c.choose(1, ""); history(c, 2, 1, it, t, NL, c.thorough ? 4 : 3); }
SCENARIO(many_iterations, 4) { int n = 1 + c.choose(3, "n"), it = 1 + c.choose(25, "iterations"); double t = THR[c.choose(8, "threshold")]; history(c, n, 1, it, t, NL, 1); }
SCENARIO(sizes, 8) { static const int d[] = {5, 6, 7, 8, 10, 12}; int n = d[c.choose(6, "n")], it = ITS[c.choose(3, "iterations")]; double t = THR[c.choose(8, "threshold")]; history(c, n, 1, it, t, NL, 1); }
// the threshold lies just above or just below the squared change of the estimate in one chosen iteration
SCENARIO(boundary, 8)
{
  int n = 1 + c.choose(4, "n"), it = 1 + c.choose(6, "iterations"), at = c.choose(6, "boundary iteration"), side = c.choose(2, "side"); World w(n); Ref r = prior_of(n, 1 + c.choose(2, "prior") * 2); vector<int> nl; for (int i = 0; i < (int)w.meas.size(); i++) if (!w.meas[i]->lin) nl.push_back(i);
  int mi = nl[c.choose((int)nl.size(), "model")], v = c.choose(2, "value"); Model& m = *w.meas[mi]; Mat z = w.z[m.m][v], s = w.s[v], prev = r.x; bool cl; double q = 0; for (int j = 0; j <= at; j++) { Ref t = r; t.iterate(m, z, s, j + 1, -1, &cl); Mat d = t.x - prev; q = (double)(ref::T(d) * d)(0); prev = t.x; } if (!(q > 1e-12)) return;
  double thr = q * (side ? 1.001 : 0.999); Gaussian prior(br::cv(r.x), br::sm(r.P)); InnovationCheck ck(thr); IteratedExtendedKalmanFilter f(&prior, it, &ck); c.act("measure"); c.ok(m.hasu ? f.Update(m.meas.get(), br::cv(z), br::cv(s)) : f.Update(m.meas.get(), br::cv(z)), "status"); r.iterate(m, z, s, it, thr, &cl); if (cl) return; agrees(c, f.PostGet(), r, "iterated update"); c.state(hk(r));
}
// the check itself: exactly "squared length >= minimum"
SCENARIO(innovation_check, 1)
{
  static const double V[] = {0, 1, -1, 0.5, 3, 1e-3, -1e6}; static const double M[] = {0, 1e-300, 1e-6, 1, 1.25, 2, 10, 1e6, 1e12, 1e300}; int n = 1 + c.choose(4, "n"); ColumnVector v(n); double q = 0; for (int i = 1; i <= n; i++) { v(i) = V[c.choose(n > 2 ? 4 : 7, "v")]; q += v(i) * v(i); } double m = M[c.choose(10, "min")]; InnovationCheck a(m), d; c.act("check"); InnovationCheck cp(a);
  if (std::fabs(q - m) > 1e-12 * (q + m) || q == m) { c.ok(a.check(v) == (q >= m), "innovation check"); c.ok(cp.check(v) == (q >= m), "copied innovation check"); } c.ok(d.check(v), "default innovation check refuses"); c.state(mc::H()(q)(m));
}
// linear models: iterating changes nothing
SCENARIO(linear, 4)
{
  int n = 1 + c.choose(4, "n"), it = ITS[c.choose(4, "iterations")], mi = c.choose(4, "model"); World w(n); vector<int> li; for (int i = 0; i < (int)w.meas.size(); i++) if (w.meas[i]->lin) li.push_back(i); Model& m = *w.meas[li[mi]]; Ref r = prior_of(n, c.choose(3, "prior")); Gaussian prior(br::cv(r.x), br::sm(r.P)); IteratedExtendedKalmanFilter f(&prior, it); Mat z = w.z[m.m][1], s = w.s[0]; c.act("measure"); c.ok(m.hasu ? f.Update(m.meas.get(), br::cv(z), br::cv(s)) : f.Update(m.meas.get(), br::cv(z)), "status"); r.update(m, z, s); agrees(c, f.PostGet(), r, "linear update"); c.state(hk(r));
}
SCENARIO(reset, 8)
{
  int n = 1 + c.choose(3, "n"), n2 = 1 + c.choose(3, "n after"), it = ITS[1 + c.choose(2, "iterations")]; World w(n), v(n2); Ref r = prior_of(n, 0), q = prior_of(n2, 1); Gaussian p1(br::cv(r.x), br::sm(r.P)), p2(br::cv(q.x), br::sm(q.P)); IteratedExtendedKalmanFilter f(&p1, it); bool cl; auto rule = [&](Ref& a, const Model& m, const Mat& z, const Mat& s) { a.iterate(m, z, s, it, -1, &cl); };
  Filt a{w, f, r, rule}; op(c, a, nlop(w, c)); c.act("reset"); f.Reset(&p2); Filt b{v, f, q, rule}; b.chk(c, "after reset"); op(c, b, nlop(v, c)); op(c, b, nlop(v, c)); agrees(c, &p2, q, "the prior handed to reset");
}
SCENARIO(interleaved, 8)
{
  World w(2); Ref r1 = prior_of(2, 0), r2 = prior_of(2, 1); Gaussian p1(br::cv(r1.x), br::sm(r1.P)), p2(br::cv(r2.x), br::sm(r2.P)); InnovationCheck ck(1e-12); IteratedExtendedKalmanFilter f1(&p1, 3, &ck), f2(&p2, 2, &ck); bool cl; auto rule = [&](int it) { return [&, it](Ref& a, const Model& m, const Mat& z, const Mat& s) { a.iterate(m, z, s, it, 1e-12, &cl); if (cl) throw Close(); }; }; Filt a{w, f1, r1, rule(3)}, b{w, f2, r2, rule(2)};
  try { for (int k = 0; k < 3; k++) { int who = c.choose(2, "filter"), o = nlop(w, c); op(c, who ? b : a, o); a.chk(c, "filter 1"); b.chk(c, "filter 2"); } } catch (Close&) {}
}

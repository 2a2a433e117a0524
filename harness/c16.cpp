// C16: Rauch-Tung-Striebel smoother: forward filter + backward pass = posterior of every state given all measurements
#include "mc_main.h"
#include "kfworld.h"
#include <smoother/rauchtungstriebel.h>
using namespace kw;
struct Step { int sys, k, meas, v; };                                 // one forward step: prediction, then an optional measurement (-1: none)
struct Run {
  World& w; Ref r; std::unique_ptr<Gaussian> g0; vector<Step> st; vector<Ref> filt; vector<std::unique_ptr<Gaussian>> fg; Mat J, C; int n; bool linear = true;   // J, C: joint mean and covariance of all states so far
  Run(World& w_, int pat, int firstmeas) : w(w_), n(w_.n)
  {
    r = prior_of(n, pat); if (firstmeas >= 0) { Model& m = *w.meas[firstmeas]; linear = linear && m.lin; r.update(m, w.z[m.m][0], w.s[0]); }
    J = r.x; C = r.P; keep();
  }
  void keep() { filt.push_back(r); fg.emplace_back(new Gaussian(br::cv(r.x), br::sm(r.P))); filt.back().x = br::from(fg.back()->ExpectedValueGet()); filt.back().P = br::from(fg.back()->CovarianceGet()); }
  void forward(const Step& s)
  {
    Model& a = *w.sys[s.sys]; Mat u = w.uin(a, s.k); linear = linear && a.lin; int N = J.r; Mat F = a.df(r.x, u), Q = a.cov(r.x); r.predict(a, u);
    Mat last(n, 1), Jn(N + n, 1), Cn(N + n, N + n), G(n, N); for (int i = 0; i < n; i++) { last(i) = J(N - n + i); for (int j = 0; j < n; j++) G(i, N - n + j) = F(i, j); } Mat y = a.f(last, u), GC = G * C, GCG = GC * ref::T(G) + Q;
    for (int i = 0; i < N + n; i++) { Jn(i) = i < N ? J(i) : y(i - N); for (int j = 0; j < N + n; j++) Cn(i, j) = i < N && j < N ? C(i, j) : i >= N && j >= N ? GCG(i - N, j - N) : i >= N ? GC(i - N, j) : GC(j - N, i); } J = Jn; C = Cn;
    if (s.meas >= 0) { Model& m = *w.meas[s.meas]; linear = linear && m.lin; Mat z = w.z[m.m][s.v], sp = w.s[s.v], H = m.df(r.x, sp), Hj(m.m, J.r); for (int i = 0; i < m.m; i++) for (int j = 0; j < n; j++) Hj(i, J.r - n + j) = H(i, j); Ref q; q.x = J; q.P = C; q.correct(z, m.f(r.x, sp), Hj, m.cov(r.x)); J = q.x; C = q.P; r.update(m, z, sp); }
    st.push_back(s); keep();
  }
  Ref back(const Ref& next, int k) const                              // smoothed state k from smoothed state k+1
  {
    const Ref& f = filt[k]; const Model& a = *w.sys[st[k].sys]; Mat u = w.uin(a, st[k].k), F = a.df(f.x, u), Pp = F * f.P * ref::T(F) + a.cov(f.x), K = f.P * ref::T(F) * ref::inv(Pp); Ref o; o.mag = std::fmax(f.mag, next.mag); o.x = f.x + K * (next.x - a.f(f.x, u)); o.P = Ref::sym(f.P - K * (Pp - next.P) * ref::T(K)); return o;
  }
  void step(Ctx& c, RauchTungStriebel& s, Ref& sm, int k)
  {
    Model& a = *w.sys[st[k].sys]; Mat u = w.uin(a, st[k].k); c.act("smooth state %d", k); c.ok(a.hasu ? s.Update(a.sys.get(), br::cv(u), fg[k].get()) : s.Update(a.sys.get(), fg[k].get()), "status"); sm = back(sm, k); agrees(c, (Gaussian*)s.PostGet(), sm, "smoothed state", 1e-6); c.state(hk(sm));
    if (linear) { Mat x(n, 1), P(n, n); for (int i = 0; i < n; i++) { x(i) = J(k * n + i); for (int j = 0; j < n; j++) P(i, j) = C(k * n + i, k * n + j); } br::same(c, br::from(s.PostGet()->ExpectedValueGet()), x, "mean given all measurements", 1e-6); br::same(c, br::from(s.PostGet()->CovarianceGet()), P, "covariance given all measurements", 1e-6); }
    br::same(c, br::from(fg[k]->ExpectedValueGet()), filt[k].x, "filtered posterior handed in", 1e-15); br::same(c, br::from(fg[k]->CovarianceGet()), filt[k].P, "filtered posterior handed in", 1e-15);
  }
};
static void smooth(Ctx& c, Run& q) { int T = (int)q.st.size(); Gaussian prior(*q.fg[T]); { RauchTungStriebel s(&prior); Ref sm = q.filt[T]; agrees(c, (Gaussian*)s.PostGet(), sm, "initially"); for (int k = T - 1; k >= 0; k--) q.step(c, s, sm, k); } agrees(c, &prior, q.filt[T], "the prior"); }
static Step pick(Ctx& c, World& w, bool lin, int maxm) { Step s; static const int L[] = {0, 1, 2}; s.sys = lin ? L[c.choose(3, "system")] : c.choose(5, "system"); s.k = w.sys[s.sys]->hasu ? c.choose(2, "input") : 0; vector<int> ok; for (int i = 0; i < (int)w.meas.size() && (int)ok.size() < maxm; i++) if (!lin || w.meas[i]->lin) ok.push_back(i); int m = c.choose((int)ok.size() + 1, "measurement"); s.meas = m ? ok[m - 1] : -1; s.v = m ? m % 2 : 0; return s; }
SCENARIO(linear1, 4) { World w(1); int pat = c.choose(3, "prior"), fm = c.choose(2, "first measurement") - 1; Run q(w, pat, fm); for (int k = 0; k < 2; k++) q.forward(pick(c, w, true, 4)); smooth(c, q); }
SCENARIO(linear2, 8) { World w(2); int pat = c.choose(3, "prior"), fm = c.choose(2, "first measurement") - 1; Run q(w, pat, fm); for (int k = 0; k < 2; k++) q.forward(pick(c, w, true, 4)); smooth(c, q); }
SCENARIO(linear3, 8) { World w(3); int pat = c.choose(2, "prior"); Run q(w, pat, 0); for (int k = 0; k < 2; k++) q.forward(pick(c, w, true, 3)); smooth(c, q); }
SCENARIO(deep, 8) { World w(2); Run q(w, 0, -1); int T = c.thorough ? 4 : 3; for (int k = 0; k < T; k++) q.forward(pick(c, w, false, 2)); smooth(c, q); }
SCENARIO(nonlinear1, 8) { World w(1); int pat = c.choose(2, "prior"); Run q(w, pat, -1); for (int k = 0; k < 2; k++) q.forward(pick(c, w, false, 5)); smooth(c, q); }
SCENARIO(nonlinear2, 8) { World w(2); int pat = c.choose(3, "prior"); Run q(w, pat, -1); for (int k = 0; k < 2; k++) q.forward(pick(c, w, false, 6)); smooth(c, q); }
SCENARIO(sizes, 4) { static const int d[] = {4, 5, 6, 7, 8, 10}; World w(d[c.choose(6, "n")]); int pat = c.choose(2, "prior"); Run q(w, pat, 1); q.forward(pick(c, w, false, 4)); smooth(c, q); }
SCENARIO(long_runs, 4) { World w(1 + c.choose(2, "n")); Run q(w, 0, 0); int s1 = c.choose(4, "a"), s2 = c.choose(4, "b"), m1 = c.choose(3, "m"), m2 = c.choose(4, "m2") - 1; for (int k = 0; k < 15; k++) { double mx = 0; for (auto v : q.r.x.a) mx = std::fmax(mx, std::fabs((double)v)); if (mx > 1e3) break; q.forward(Step{k % 2 ? s1 : s2, k % 2, k % 3 ? m1 : m2, k % 2}); } smooth(c, q); }
// two smoothers over shared models, and a reset to another run
SCENARIO(interleaved, 4)
{
  World w(2), v(2 + c.choose(2, "other size") * 1); Run a(w, 0, 0), b(v, 1, -1); for (int k = 0; k < 3; k++) { a.forward(Step{(k * 2) % 5, k % 2, k % 2 ? 1 : 2, 0}); b.forward(Step{(k * 3 + 1) % 5, 1, k % 2 ? 0 : 4, 1}); } Gaussian pa(*a.fg[3]), pb(*b.fg[3]); RauchTungStriebel s(&pa), t(&pb); Ref ra = a.filt[3], rb = b.filt[3]; int i = 2, j = 2; while (i >= 0 || j >= 0) { if (j < 0 || (i >= 0 && c.choose(2, "who"))) a.step(c, s, ra, i--); else b.step(c, t, rb, j--); agrees(c, (Gaussian*)s.PostGet(), ra, "smoother 1", 1e-6); agrees(c, (Gaussian*)t.PostGet(), rb, "smoother 2", 1e-6); }
}
SCENARIO(reset, 4)
{
  int n = 1 + c.choose(3, "n"), n2 = 1 + c.choose(3, "n after"), before = c.choose(3, "steps before"), base = c.choose(2, "via base"); World w(n), v(n2); Run a(w, 0, -1), b(v, 1, 0); for (int k = 0; k < 2; k++) { a.forward(Step{k, k, 0, 0}); b.forward(Step{3 + k, k, 1, 1}); } Gaussian pa(*a.fg[2]), pb(*b.fg[2]);
  { RauchTungStriebel s(&pa); Ref ra = a.filt[2]; for (int k = 1; k >= 2 - before; k--) a.step(c, s, ra, k); c.act("reset"); if (base) ((BackwardFilter<ColumnVector>&)s).Reset(&pb); else s.Reset(&pb); Ref rb = b.filt[2]; agrees(c, (Gaussian*)s.PostGet(), rb, "after reset"); c.ok(s.PostGet() != &pb, "the posterior is the prior object"); for (int k = 1; k >= 0; k--) b.step(c, s, rb, k); }
  agrees(c, &pb, b.filt[2], "prior handed to reset"); agrees(c, &pa, a.filt[2], "first prior");
}

// C07: particle filter recursion (between resamplings) for every history of updates
#include "mc_main.h"
#include "pfworld.h"
using namespace pw;

template <class SV, class MV> struct Run {
  World<SV, MV>& w; Parts ref; int steps; Parts prior0;
  Run(World<SV, MV>& w_, const MCPdf<SV>* prior) : w(w_), steps(0) { ref = read(prior); prior0 = ref; double s = 0; for (auto& p : ref) s += p.w; for (auto& p : ref) p.w /= s; }
  static const int NOPS = 19, ALLOPS = 27;
  void same(Ctx& c, const Parts& now, const Parts& want, const char* who)
  {
    c.eq((long)now.size(), (long)want.size(), "number of particles"); double s = 0;
    for (size_t i = 0; i < now.size(); i++) { c.ok(veq(now[i].x, want[i].x), fmt("%s: value of particle %zu", who, i)); c.ok(std::fabs(now[i].w - want[i].w) <= 1e-7 * want[i].w + 1e-280, fmt("%s: weight of particle %zu is %.15g, expected %.15g", who, i, now[i].w, want[i].w)); c.ok(now[i].w >= 0, "negative weight"); s += now[i].w; }
    c.near(s, 1, "sum of weights");
  }
  void go(Ctx& c, ParticleFilter<SV, MV>& f, int op)
  {
    // decode: which system model / input, which measurement model / measurement / sensor parameter
    struct Op { int sys, u, meas, z, s; };                                     // -1: absent
    static const Op ops[ALLOPS] = {{0,-1,-1,0,-1}, {1,-1,-1,0,-1}, {2,0,-1,0,-1}, {2,1,-1,0,-1},
      {-1,-1,0,0,-1}, {-1,-1,0,1,-1}, {-1,-1,1,0,-1}, {-1,-1,2,1,-1}, {-1,-1,3,0,-1}, {-1,-1,4,0,-1},
      {-1,-1,0,0,0}, {-1,-1,1,1,1}, {-1,-1,4,1,0},
      {0,-1,0,1,-1}, {2,1,0,0,-1}, {1,-1,1,1,0}, {2,0,2,0,1}, {2,1,1,0,1}, {1,-1,4,0,-1},
      {-1,-1,5,0,-1}, {-1,-1,6,1,-1}, {-1,-1,7,0,-1}, {-1,-1,8,1,-1}, {-1,-1,5,1,0}, {-1,-1,8,0,1}, {2,1,5,0,1}, {0,-1,8,1,-1}};
    Op o = ops[op]; c.act("update sys=%d u=%d meas=%d z=%d s=%d", o.sys, o.u, o.meas, o.z, o.s);
    SystemModel<SV>* sm = o.sys < 0 ? NULL : o.sys == 0 ? &w.s0 : o.sys == 1 ? &w.s1 : &w.su;
    MeasurementModel<MV, SV>* mm = o.meas < 0 ? NULL : o.s < 0 ? w.lm[o.meas].get() : w.lms[o.meas].get();
    V uv = o.u < 0 ? V() : w.u[o.u], sv = o.s < 0 ? V() : w.s[o.s], zv = w.z[o.z];
    SV u = Tr<SV>::make(o.u < 0 ? V(w.dim, 0) : uv), s = Tr<SV>::make(o.s < 0 ? V(w.dim, 0) : sv); MV z = Tr<MV>::make(zv);
    size_t from = w.log.d.size(); bool ret;
    if (sm && !mm) ret = o.u < 0 ? f.Update(sm) : f.Update(sm, u);
    else if (!sm) ret = o.s < 0 ? f.Update(mm, z) : f.Update(mm, z, s);
    else if (o.u < 0) ret = o.s < 0 ? f.Update(sm, mm, z) : f.Update(sm, mm, z, s);
    else ret = o.s < 0 ? f.Update(sm, u, mm, z) : f.Update(sm, u, mm, z, s);
    Parts now = read(f.PostGet()); bool want = true;
    if (sm) { steps++; predicted(c, w.log, from, ref, uv, now, NULL); for (size_t i = 0; i < ref.size(); i++) ref[i].x = now[i].x; }
    else c.eq((long)w.log.d.size(), (long)from, "draws made by a measurement update");
    if (mm) {
      vector<double> nw; double tot = 0; for (auto& p : ref) { double l = lik(o.meas, zv, p.x, sv) * p.w; nw.push_back(l); tot += l; }
      want = tot > 0; if (want) for (size_t i = 0; i < ref.size(); i++) ref[i].w = nw[i] / tot;
    }
    c.ok(ret == want, fmt("update returned %d, expected %d", (int)ret, (int)want));
    same(c, now, ref, "posterior"); c.eq(f.TimeStepGet(), steps, "time step");
    mc::H h; for (auto& p : ref) { h(p.x)(p.w); } c.state(h);
  }
  void prior_ok(Ctx& c, const MCPdf<SV>& prior) { Parts p = read(&prior); c.eq((long)p.size(), (long)prior0.size(), "prior size"); for (size_t i = 0; i < p.size(); i++) c.ok(p[i].x == prior0[i].x && p[i].w == prior0[i].w, "the prior was modified"); }
};
template <class SV, class MV> static void histories(Ctx& c, int dim, int mdim, int n, int pat, int ctor, const std::function<int(int)>& next, int depth)
{
  World<SV, MV> w(dim, mdim); MCPdf<SV> prior(n, dim); prior_set(prior, n, dim, pat); MCPdf<SV> post(n, dim); prior_set(post, n, dim, 0, 7);
  Run<SV, MV> r(w, &prior);
  { std::unique_ptr<BootstrapFilter<SV, MV>> f(ctor == 0 ? new BootstrapFilter<SV, MV>(&prior, 1000000, 0) : ctor == 1 ? new BootstrapFilter<SV, MV>(&prior, 0, 1e-12) : new BootstrapFilter<SV, MV>(&prior, &post, 1000000, 0));
    if (ctor == 2) c.ok(f->PostGet() == &post, "the posterior is not the object handed in");
    r.same(c, read(f->PostGet()), r.ref, "initially"); c.eq(f->TimeStepGet(), 0, "initial time step");
    for (int k = 0; k < depth; k++) { r.go(c, *f, next(k)); r.prior_ok(c, prior); } }
  if (ctor == 2) r.same(c, read(&post), r.ref, "posterior object after the filter is gone");
}
SCENARIO(vec2, 8) { int n = 1 + c.choose(3, "n"), pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<ColumnVector, ColumnVector>(c, 2, 1, n, pat, ctor, [&](int) { return c.choose(Run<ColumnVector, ColumnVector>::NOPS, "op"); }, c.thorough ? 3 : 2); }
SCENARIO(vec1_meas2, 8) { int n = 1 + c.choose(3, "n"), pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<ColumnVector, ColumnVector>(c, 1, 2, n, pat, ctor, [&](int) { return c.choose(19, "op"); }, 2); }
SCENARIO(int_state, 8) { int n = 1 + c.choose(4, "n"), pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<int, int>(c, 1, 1, n, pat, ctor, [&](int) { return c.choose(19, "op"); }, c.thorough ? 3 : 2); }
SCENARIO(int_state_cont_meas, 8) { int n = 2 + c.choose(2, "n"), pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<int, ColumnVector>(c, 1, 2, n, pat, ctor, [&](int) { return c.choose(19, "op"); }, 2); }
SCENARIO(deep, 8) { int n = 3, pat = 2; static const int al[] = {0, 2, 5, 6, 11, 14, 16, 9}; histories<ColumnVector, ColumnVector>(c, 2, 1, n, pat, c.choose(2, "ctor"), [&](int) { return al[c.choose(8, "op")]; }, c.thorough ? 5 : 4); }
SCENARIO(sizes, 8)
{ static const int sz[] = {1, 2, 4, 5, 7, 8, 10, 16, 17, 33, 50, 64, 100}; int n = sz[c.choose(13, "n")], pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<ColumnVector, ColumnVector>(c, 3, 2, n, pat, ctor, [&](int) { return c.choose(19, "op"); }, n <= 8 ? 2 : 1); }
SCENARIO(magnitudes, 8)
{ static const int sz[] = {1, 2, 3, 5, 9, 24, 150}, al[] = {19, 20, 21, 22, 23, 24, 25, 26, 3, 5, 7}; int n = sz[c.choose(7, "n")], pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); histories<ColumnVector, ColumnVector>(c, 2, 1, n, pat, ctor, [&](int k) { return al[c.choose(k < 8 ? 11 : 1, "op")]; }, n <= 5 && c.thorough ? 3 : 2); }
SCENARIO(magnitudes_long, 8)
{ int len = 1 + c.choose(2, "len"); vector<int> word; for (int i = 0; i < len; i++) word.push_back(c.choose(8, "op")); static const int al[] = {19, 20, 21, 22, 25, 26, 3, 0}; c.choose(1, ""); histories<ColumnVector, ColumnVector>(c, 2, 1, 6, 2, 0, [&](int k) { return al[word[k % len]]; }, 7); }
SCENARIO(magnitudes_int, 8)
{ int n = 1 + c.choose(6, "n"), pat = c.choose(4, "prior"), ctor = c.choose(3, "ctor"); static const int al[] = {19, 20, 21, 22, 23, 24, 25, 26, 3, 5, 7}; histories<int, int>(c, 1, 1, n, pat, ctor, [&](int) { return al[c.choose(11, "op")]; }, 2); }
SCENARIO(dimensions, 8)
{ int d = 4 + c.choose(4, "dim"), m = 3 + c.choose(3, "mdim"), n = 1 + 2 * c.choose(3, "n"), pat = c.choose(4, "prior"); histories<ColumnVector, ColumnVector>(c, d, m, n, pat, 0, [&](int) { return c.choose(19, "op"); }, 1); }
SCENARIO(periodic, 8)
{ int len = 1 + c.choose(2, "len"); vector<int> word; for (int i = 0; i < len; i++) word.push_back(c.choose(19, "op")); c.choose(1, ""); histories<ColumnVector, ColumnVector>(c, 2, 1, 4, 2, 0, [&](int k) { return word[k % len]; }, 40); }
// two filters over shared models, interleaved in every order
SCENARIO(interleaved, 8)
{
  typedef ColumnVector CV; World<CV, CV> w(2, 1); MCPdf<CV> p1(3, 2), p2(2, 2); prior_set(p1, 3, 2, 2); prior_set(p2, 2, 2, 0, 1);
  Run<CV, CV> r1(w, &p1), r2(w, &p2); BootstrapFilter<CV, CV> f1(&p1, 1000000, 0), f2(&p2, 0, 1e-12); static const int al[] = {0, 3, 5, 11, 14, 17};
  for (int k = 0; k < (c.thorough ? 4 : 3); k++) { int who = c.choose(2, "filter"), op = al[c.choose(6, "op")]; if (who) r2.go(c, f2, op); else r1.go(c, f1, op); r1.same(c, read(f1.PostGet()), r1.ref, "filter 1"); r2.same(c, read(f2.PostGet()), r2.ref, "filter 2"); }
  r1.prior_ok(c, p1); r2.prior_ok(c, p2);
}
// the models may be exchanged for others through SystemPdfSet/MeasurementPdfSet between updates
SCENARIO(model_swap, 4)
{
  typedef ColumnVector CV; World<CV, CV> w(2, 1); MCPdf<CV> prior(3, 2); prior_set(prior, 3, 2, c.choose(3, "prior")); Run<CV, CV> r(w, &prior); BootstrapFilter<CV, CV> f(&prior, 1000000, 0);
  Move<CV> q0(2, 1, 2, &w.log), qu(2, 2, 2, &w.log); Lik<CV, CV> l(1, 1, 3), ls(1, 2, 3);
  for (int k = 0; k < 3; k++) {
    int a = c.choose(5, "op");
    if (a == 0) { c.act("swap system pdf"); w.s0.SystemPdfSet(&q0); r.go(c, f, 0); }
    else if (a == 1) { c.act("swap input system pdf"); w.su.SystemPdfSet(&qu); r.go(c, f, 2 + k % 2); }
    else if (a == 2) { c.act("swap measurement pdf"); w.lm[3]->MeasurementPdfSet(&l); r.go(c, f, 8); }
    else if (a == 3) r.go(c, f, 14); else r.go(c, f, 10);
  }
}
// general filter: proposal different from the system density
template <class SV, class MV> static void general(Ctx& c, int dim, int mdim, int depth)
{
  int n = 1 + c.choose(3, "n"), pat = c.choose(3, "prior"), own = c.choose(2, "ctor");
  World<SV, MV> w(dim, mdim); MCPdf<SV> prior(n, dim), post(n, dim); prior_set(prior, n, dim, pat); prior_set(post, n, dim, 0, 3);
  Move<SV> qa(dim, 1, 1, &w.log), qb(dim, 1, 3, &w.log), qu(dim, 2, 2, &w.log); Log dead; Move<SV> p0(dim, 1, 0, &dead), p3(dim, 1, 3, &dead), pu(dim, 2, 1, &dead); SystemModel<SV> s0(&p0), s3(&p3), su(&pu);
  std::unique_ptr<ParticleFilter<SV, MV>> f(own ? new ParticleFilter<SV, MV>(&prior, &qa, 1000000, 0) : new ParticleFilter<SV, MV>(&prior, &post, &qa, 1000000, 0));
  Run<SV, MV> r(w, &prior); r.same(c, read(f->PostGet()), r.ref, "initially"); c.ok(f->ProposalGet() == &qa, "proposal");
  for (int k = 0; k < depth; k++) {
    int op = c.choose(12, "op");
    if (op < 2) { r.go(c, *f, 5 + 6 * op); continue; }
    op -= 2; int si = op % 3; bool hass = op >= 5; int zi = (op / 3) % 2, mk = op % 2 ? 1 : 0; if (op == 9) mk = 4; Move<SV>* q = si == 2 ? &qu : (op % 2 ? &qb : &qa); Move<SV>* p = si == 0 ? &p0 : si == 1 ? &p3 : &pu; SystemModel<SV>* sm = si == 0 ? &s0 : si == 1 ? &s3 : &su;
    V uv = si == 2 ? w.u[zi] : V(), sv = hass ? w.s[1 - zi] : V(), zv = w.z[zi]; SV s = Tr<SV>::make(w.s[1 - zi]), u = Tr<SV>::make(w.u[zi]); MV z = Tr<MV>::make(zv);
    c.act("proposal %d system %d sensor %d meas %d", q->kind, p->kind, (int)hass, mk);
    f->ProposalSet(q); size_t from = w.log.d.size(); dead.d.clear(); bool ret;
    MeasurementModel<MV, SV>* mm = hass ? w.lms[mk].get() : w.lm[mk].get();
    if (si == 2) ret = hass ? f->Update(sm, u, mm, z, s) : f->Update(sm, u, mm, z); else ret = hass ? f->Update(sm, mm, z, s) : f->Update(sm, mm, z);
    Parts now = read(f->PostGet()), old = r.ref; r.steps++; predicted(c, w.log, from, old, uv, now, NULL); c.ok(dead.d.empty(), "the system density was drawn from instead of the proposal");
    double tot = 0; vector<double> nw; for (size_t i = 0; i < old.size(); i++) { double qd = Move<SV>::dens(q->kind, now[i].x, old[i].x, uv), pd = Move<SV>::dens(p->kind, now[i].x, old[i].x, uv); double l = old[i].w * lik(mk, zv, now[i].x, sv) * (qd > 0 ? pd / qd : 0); nw.push_back(l); tot += l; r.ref[i].x = now[i].x; }
    if (tot > 0) for (size_t i = 0; i < old.size(); i++) r.ref[i].w = nw[i] / tot;
    c.ok(ret == (tot > 0), "update status"); r.same(c, now, r.ref, "importance weighted posterior"); c.eq(f->TimeStepGet(), r.steps, "time step");
    mc::H h; for (auto& p : r.ref) { h(p.x)(p.w); } c.state(h); r.prior_ok(c, prior);
  }
}
SCENARIO(general_vec, 8) { general<ColumnVector, ColumnVector>(c, 2, 1, c.thorough ? 4 : 3); }
SCENARIO(general_int, 8) { general<int, int>(c, 1, 1, c.thorough ? 4 : 3); }
// reset between updates, also to another number of particles
SCENARIO(reset, 8)
{
  typedef ColumnVector CV; int n0 = 1 + c.choose(3, "n"), n1 = 1 + c.choose(3, "new n"), ctor = c.choose(2, "ctor"), pat = c.choose(3, "prior"); World<CV, CV> w(2, 1); MCPdf<CV> p0(n0, 2), p1(n1, 2); prior_set(p0, n0, 2, 2); prior_set(p1, n1, 2, pat, 3); Run<CV, CV> r0(w, &p0), r1(w, &p1); Run<CV, CV>* r = &r0; Parts a = r0.ref, b = r1.ref;
  std::unique_ptr<BootstrapFilter<CV, CV>> f(ctor ? new BootstrapFilter<CV, CV>(&p0, 0, 1e-12) : new BootstrapFilter<CV, CV>(&p0, 1000000, 0)); static const int al[] = {0, 5, 11, 14};
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) { int op = c.choose(6, "op"); if (op < 4) r->go(c, *f, al[op]); else { c.act("reset to prior %d", op - 4); int st = r->steps; r = op == 4 ? &r0 : &r1; r->ref = op == 4 ? a : b; r->steps = st; Filter<CV, CV>* fb = f.get(); fb->Reset(op == 4 ? &p0 : &p1); r->same(c, read(f->PostGet()), r->ref, "after reset"); } r0.prior_ok(c, p0); r1.prior_ok(c, p1); }
}

// proposal and system densities of very different size: only their ratio matters
template <class SV, class MV> static void general_sizes(Ctx& c, int dim, int mdim, int depth)
{
  static const int qk[] = {5, 6, 4, 0, 5, 0, 6, 3, 5, 4}, pk[] = {5, 6, 4, 5, 0, 6, 0, 5, 4, 5};
  static const int sz[] = {1, 2, 3, 6}; int n = sz[c.choose(4, "n")], pat = c.choose(6, "prior"), inp = c.choose(2, "input"), hass = c.choose(2, "sensor parameter"); World<SV, MV> w(dim, mdim); MCPdf<SV> prior(n, dim); prior_set(prior, n, dim, n == 1 ? 0 : pat); Log dead; ParticleFilter<SV, MV> f(&prior, &w.m0, 1000000, 0); Run<SV, MV> r(w, &prior);
  for (int k = 0; k < depth; k++) {
    int d = c.choose(10, "densities"), mk = 3 * c.choose(2, "likelihood"); Move<SV> q(dim, inp ? 2 : 1, qk[d], &w.log), p(dim, inp ? 2 : 1, pk[d], &dead); SystemModel<SV> sm(&p); V uv = inp ? w.u[k % 2] : V(), sv = hass ? w.s[k % 2] : V(), zv = w.z[k % 2]; SV u = Tr<SV>::make(w.u[k % 2]), s = Tr<SV>::make(w.s[k % 2]); MV z = Tr<MV>::make(zv); MeasurementModel<MV, SV>* mm = hass ? w.lms[mk].get() : w.lm[mk].get();
    c.act("proposal %d system %d likelihood %d", qk[d], pk[d], mk); f.ProposalSet(&q); size_t from = w.log.d.size(); bool ret = inp ? (hass ? f.Update(&sm, u, mm, z, s) : f.Update(&sm, u, mm, z)) : (hass ? f.Update(&sm, mm, z, s) : f.Update(&sm, mm, z));
    Parts now = read(f.PostGet()), old = r.ref; r.steps++; predicted(c, w.log, from, old, uv, now, NULL); c.ok(dead.d.empty(), "the system density was drawn from instead of the proposal");
    double tot = 0; vector<double> nw; for (size_t i = 0; i < old.size(); i++) { double qd = Move<SV>::dens(qk[d], now[i].x, old[i].x, uv), pd = Move<SV>::dens(pk[d], now[i].x, old[i].x, uv); double l = old[i].w * lik(mk, zv, now[i].x, sv) * (qd > 0 ? pd / qd : 0); nw.push_back(l); tot += l; r.ref[i].x = now[i].x; }
    if (tot > 0) for (size_t i = 0; i < old.size(); i++) r.ref[i].w = nw[i] / tot;
    c.ok(ret == (tot > 0), "update status"); r.same(c, now, r.ref, "importance weighted posterior"); mc::H h; for (auto& p : r.ref) { h(p.x)(p.w); } c.state(h); r.prior_ok(c, prior);
  }
}
SCENARIO(general_sizes_vec, 8) { general_sizes<ColumnVector, ColumnVector>(c, 2, 1, 2); }
SCENARIO(general_sizes_int, 8) { general_sizes<int, int>(c, 1, 1, 2); }

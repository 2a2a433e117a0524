// C11: mixture particle filters: every component is a particle filter of its own, mixture weights follow the evidence
#include "mc_main.h"
#include "pfworld.h"
#include "sampling.h"
#include <filter/mixtureBootstrapFilter.h>
using namespace pw;

template <class SV> struct MR { vector<Parts> comp; V w; };
template <class SV> static MR<SV> readm(const Mixture<SV>* m) { MR<SV> r; for (unsigned i = 0; i < m->NumComponentsGet(); i++) { MCPdf<SV>* p = dynamic_cast<MCPdf<SV>*>(const_cast<Mixture<SV>*>(m)->ComponentGet(i)); r.comp.push_back(read(p)); r.w.push_back((double)m->WeightGet(i)); } return r; }
static double neff(const Parts& p) { double s = 0; for (auto& q : p) s += q.w * q.w; return 1 / s; }
static void norm(Parts& p) { double s = 0; for (auto& q : p) s += q.w; for (auto& q : p) q.w /= s; }
// a mixture prior: component sizes and weight pattern
template <class SV> static void mkprior(Mixture<SV>& m, const vector<int>& sizes, const V& w, int dim, int pat)
{
  int k = 0; for (int n : sizes) { MCPdf<SV> p(n, dim); prior_set(p, n, dim, n == 1 ? 0 : pat, 3 * k); Probability pr(w[k]); m.AddComponent(p, pr); k++; }
  vector<Probability> ws; for (double x : w) ws.push_back(Probability(x)); m.WeightsSet(ws);
}
template <class SV, class MV> struct Run {
  World<SV, MV>& w; MR<SV> ref, prior0; int steps = 0; bool dyn = false; int period = 1000000; double thr = 0; long nres = 0;
  Run(World<SV, MV>& w_, const Mixture<SV>* prior) : w(w_) { ref = readm(prior); prior0 = ref; for (auto& p : ref.comp) norm(p); }
  void same(Ctx& c, const MR<SV>& now, const MR<SV>& want, const char* who)
  {
    c.eq((long)now.comp.size(), (long)want.comp.size(), "number of components"); double sw = 0;
    for (size_t k = 0; k < now.comp.size(); k++) {
      c.ok(std::fabs(now.w[k] - want.w[k]) <= 1e-7 * want.w[k] + 1e-280, fmt("%s: weight of component %zu is %.15g, expected %.15g", who, k, now.w[k], want.w[k])); c.ok(now.w[k] >= 0, "negative mixture weight"); sw += now.w[k];
      c.eq((long)now.comp[k].size(), (long)want.comp[k].size(), "number of particles"); double s = 0;
      for (size_t i = 0; i < now.comp[k].size(); i++) { c.ok(veq(now.comp[k][i].x, want.comp[k][i].x), fmt("%s: value of particle %zu of component %zu", who, i, k)); c.ok(std::fabs(now.comp[k][i].w - want.comp[k][i].w) <= 1e-7 * want.comp[k][i].w + 1e-280, fmt("%s: weight of particle %zu of component %zu is %.15g, expected %.15g", who, i, k, now.comp[k][i].w, want.comp[k][i].w)); s += now.comp[k][i].w; }
      c.near(s, 1, "sum of particle weights");
    }
    c.near(sw, 1, "sum of mixture weights");
  }
  static const int NOPS = 19, ALLOPS = 27;
  struct Op { int sys, u, meas, z, s; };                                     // -1: absent
  static Op dec(int op)
  {
    static const Op ops[ALLOPS] = {{0,-1,-1,0,-1}, {1,-1,-1,0,-1}, {2,0,-1,0,-1}, {2,1,-1,0,-1},
      {-1,-1,0,0,-1}, {-1,-1,0,1,-1}, {-1,-1,1,0,-1}, {-1,-1,2,1,-1}, {-1,-1,3,0,-1}, {-1,-1,4,0,-1},
      {-1,-1,0,0,0}, {-1,-1,1,1,1}, {-1,-1,4,1,0},
      {0,-1,0,1,-1}, {2,1,0,0,-1}, {1,-1,1,1,0}, {2,0,2,0,1}, {2,1,1,0,1}, {1,-1,4,0,-1},
      {-1,-1,5,0,-1}, {-1,-1,6,1,-1}, {-1,-1,7,0,-1}, {-1,-1,8,1,-1}, {-1,-1,5,1,0}, {-1,-1,8,0,1}, {2,1,5,0,1}, {0,-1,8,1,-1}};
    return ops[op];
  }
  // q != NULL: importance weighting by system (kind pk) over proposal (kind qk)
  void go(Ctx& c, MixtureParticleFilter<SV, MV>& f, int op, SystemModel<SV>* gsm = NULL, int qk = 0, int pk = 0)
  {
    Op o = dec(op); c.act("update sys=%d u=%d meas=%d z=%d s=%d", o.sys, o.u, o.meas, o.z, o.s);
    SystemModel<SV>* sm = o.sys < 0 ? NULL : gsm ? gsm : o.sys == 0 ? &w.s0 : o.sys == 1 ? &w.s1 : &w.su;
    MeasurementModel<MV, SV>* mm = o.meas < 0 ? NULL : o.s < 0 ? w.lm[o.meas].get() : w.lms[o.meas].get();
    V uv = o.u < 0 ? V() : w.u[o.u], sv = o.s < 0 ? V() : w.s[o.s], zv = w.z[o.z];
    SV u = Tr<SV>::make(o.u < 0 ? V(w.dim, 0) : uv), s = Tr<SV>::make(o.s < 0 ? V(w.dim, 0) : sv); MV z = Tr<MV>::make(zv);
    size_t from = w.log.d.size(); bool ret;
    if (sm && !mm) ret = o.u < 0 ? f.Update(sm) : f.Update(sm, u);
    else if (!sm) ret = o.s < 0 ? f.Update(mm, z) : f.Update(mm, z, s);
    else if (o.u < 0) ret = o.s < 0 ? f.Update(sm, mm, z) : f.Update(sm, mm, z, s);
    else ret = o.s < 0 ? f.Update(sm, u, mm, z) : f.Update(sm, u, mm, z, s);
    MR<SV> now = readm<SV>(f.PostGet()); bool want = true; long tot = 0; for (auto& p : ref.comp) tot += (long)p.size();
    vector<Parts> olds = ref.comp;
    c.eq((long)now.comp.size(), (long)ref.comp.size(), "number of components");
    for (size_t k = 0; k < ref.comp.size(); k++) c.eq((long)now.comp[k].size(), (long)ref.comp[k].size(), "number of particles of a component");
    c.eq((long)(w.log.d.size() - from), sm ? tot : 0, "draws made by the update");
    if (sm) {
      bool due = !dyn && steps != 0 && steps % period == 0; steps++; nres += due;
      // dynamic resampling in the same update hides the direct image: then only check that every value is a draw
      for (size_t k = 0; k < ref.comp.size(); k++) {
        Parts& r = ref.comp[k]; Parts base = r;
        // the draws of this component: in some order; find for each new particle its draw
        for (size_t i = 0; i < r.size(); i++) {
          bool hit = false;
          size_t lo = 0, hi = w.log.d.size();
          if (due || (mm && dyn)) {
            // the i-th draw of this component in order of drawing
            size_t off = from; for (size_t q = 0; q < k; q++) off += ref.comp[q].size(); Draw& d = w.log.d[off + i]; c.ok(veq(d.u, uv), "input used by a draw"); bool anc = false;
            if (due) { for (auto& b : base) if (b.w > 0 && veq(b.x, d.x)) anc = true; } else anc = veq(base[i].x, d.x);
            c.ok(anc, "a particle was drawn from something that was no particle of positive weight of its component"); r[i].x = d.val; if (due) r[i].w = 1.0 / r.size(); olds[k][i].x = d.x; hit = true; (void)lo; (void)hi;
          }
          else for (size_t q = from; q < w.log.d.size() && !hit; q++) { Draw& d = w.log.d[q]; if (!d.used && veq(d.x, base[i].x) && veq(d.val, now.comp[k][i].x) && veq(d.u, uv)) { d.used = hit = true; r[i].x = now.comp[k][i].x; } }
          c.ok(hit, fmt("particle %zu of component %zu is not a draw conditioned on its own old value and the input", i, k));
        }
      }
    }
    if (mm) {
      V ev(ref.comp.size()), nw(ref.comp.size()); double total = 0;
      for (size_t k = 0; k < ref.comp.size(); k++) {
        V lw; double t = 0; for (size_t i = 0; i < ref.comp[k].size(); i++) { Part& p = ref.comp[k][i]; double l = lik(o.meas, zv, p.x, sv) * p.w; if (gsm && sm) { double qd = Move<SV>::dens(qk, p.x, olds[k][i].x, uv); l *= qd > 0 ? Move<SV>::dens(pk, p.x, olds[k][i].x, uv) / qd : 0; } lw.push_back(l); t += l; }
        if (t > 0) for (size_t i = 0; i < lw.size(); i++) ref.comp[k][i].w = lw[i] / t;
        ev[k] = t; nw[k] = ref.w[k] * t; total += nw[k];
      }
      want = total > 0; if (want) for (size_t k = 0; k < nw.size(); k++) ref.w[k] = nw[k] / total;
      if (want && dyn) for (size_t k = 0; k < ref.comp.size(); k++) {
        double ne = neff(ref.comp[k]); bool must = ne < thr, either = std::fabs(ne - thr) < 1e-9 * thr; if (either) { must = false; for (size_t i = 0; i < ref.comp[k].size(); i++) if (!veq(now.comp[k][i].x, ref.comp[k][i].x) || std::fabs(now.comp[k][i].w - ref.comp[k][i].w) > 1e-9) must = true; }
        if (must) { nres++; for (auto& q : now.comp[k]) { bool hit = false; for (auto& b : ref.comp[k]) if (b.w > 0 && veq(b.x, q.x)) hit = true; c.ok(hit, "resampling produced a value that was no particle of positive weight of the component"); c.near(q.w, 1.0 / now.comp[k].size(), "weight after resampling"); } ref.comp[k] = now.comp[k]; }
      }
    }
    c.ok(ret == want, fmt("update returned %d, expected %d", (int)ret, (int)want));
    same(c, now, ref, "posterior"); c.eq(f.TimeStepGet(), steps, "time step"); ref = now;
    mc::H h; for (size_t k = 0; k < ref.comp.size(); k++) { h(ref.w[k]); for (auto& p : ref.comp[k]) h(p.x)(p.w); } c.state(h);
  }
  void prior_ok(Ctx& c, const Mixture<SV>& prior) { MR<SV> p = readm(&prior); same(c, p, prior0, "the prior object"); }
};
static const vector<vector<int>> SHAPES{{1}, {2}, {1, 1}, {2, 1}, {2, 3}, {3, 3}, {1, 2, 3}, {2, 2, 2}, {3, 1, 2, 1}};
static V mixw(int n, int pat) { V w(n); for (int i = 0; i < n; i++) w[i] = pat == 3 ? (i == n / 2 ? 1.0 : 1e-12 * (i + 1)) : pat == 4 ? (i ? 1.0 : 2000.0) : pat == 0 ? 1.0 : pat == 1 ? i + 1.0 : (i == n - 1 && n > 1 ? 0.0 : 1.0 + i); double s = 0; for (double x : w) s += x; for (double& x : w) x /= s; return w; }
static std::function<double()> lowdisc() { std::shared_ptr<long> k(new long(0)); return [k]() { return std::fmod(0.137 + 0.618033988749895 * (*k)++, 1.0); }; }
// mode: 0 no resampling (long period), 1 no resampling (tiny threshold), 2.. fixed period mode-1, 10+: threshold
template <class SV, class MV> static void histories(Ctx& c, int dim, int mdim, const vector<int>& shape, int wpat, int pat, int mode, bool user, const std::function<int(int)>& next, int depth)
{
  World<SV, MV> w(dim, mdim); Mixture<SV> prior((unsigned)dim), post((unsigned)dim); mkprior(prior, shape, mixw((int)shape.size(), wpat), dim, pat); { MCPdf<SV> q(2, dim); prior_set(q, 2, dim, 0, 9); post.AddComponent(q); }
  Run<SV, MV> r(w, &prior); int per = 0; double thr = 0; if (mode == 0) per = 1000000; else if (mode == 1) thr = 1e-12; else if (mode < 10) per = mode - 1; else thr = mode == 10 ? 1.3 : mode == 11 ? 1.9 : mode == 12 ? 2.7 : 100;
  r.dyn = per == 0; r.period = per ? per : 1; r.thr = thr; mc::rng.uni = lowdisc();
  { std::unique_ptr<MixtureBootstrapFilter<SV, MV>> f(user ? new MixtureBootstrapFilter<SV, MV>(&prior, &post, per, thr) : new MixtureBootstrapFilter<SV, MV>(&prior, per, thr));
    if (user) c.ok(f->PostGet() == &post, "the posterior is not the object handed in");
    r.same(c, readm<SV>(f->PostGet()), r.ref, "initially"); c.eq(f->TimeStepGet(), 0, "initial time step");
    for (int k = 0; k < depth; k++) { r.go(c, *f, next(k)); r.prior_ok(c, prior); } }
  if (user) r.same(c, readm(&post), r.ref, "posterior object after the filter is gone");
}
typedef ColumnVector CV;
SCENARIO(vec2, 8) { int sh = c.choose(9, "shape"), wp = c.choose(3, "weights"), pat = c.choose(3, "prior"), m = c.choose(2, "mode"), us = c.choose(2, "ctor"); histories<CV, CV>(c, 2, 1, SHAPES[sh], wp, pat, m, us, [&](int) { return c.choose(19, "op"); }, c.thorough ? 2 : 1); }
SCENARIO(vec2_deep, 8) { int sh = c.choose(3, "shape"), wp = c.choose(3, "weights"), us = c.choose(2, "ctor"); static const int s3[] = {4, 6, 1}; histories<CV, CV>(c, 2, 1, SHAPES[s3[sh]], wp, 2, 0, us, [&](int) { return c.choose(19, "op"); }, c.thorough ? 3 : 2); }
SCENARIO(int_state, 8) { int sh = c.choose(9, "shape"), wp = c.choose(3, "weights"), us = c.choose(2, "ctor"); histories<int, int>(c, 1, 1, SHAPES[sh], wp, 2, 0, us, [&](int) { return c.choose(19, "op"); }, c.thorough ? 3 : 2); }
SCENARIO(int_cont, 8) { int sh = c.choose(9, "shape"), wp = c.choose(3, "weights"), pat = c.choose(3, "prior"); histories<int, CV>(c, 1, 2, SHAPES[sh], wp, pat, 0, false, [&](int) { return c.choose(19, "op"); }, 1); }
SCENARIO(resample_static, 8) { int sh = c.choose(4, "shape"), p = c.choose(4, "period"), wp = c.choose(2, "weights") * 2; static const int s4[] = {0, 4, 6, 5}; histories<CV, CV>(c, 1, 1, SHAPES[s4[sh]], wp, 1, 2 + p, false, [&](int) { static const int al[] = {0, 2, 5, 13, 6}; return al[c.choose(5, "op")]; }, c.thorough ? 6 : 4); }
SCENARIO(resample_dynamic, 8) { int sh = c.choose(4, "shape"), p = c.choose(4, "threshold"), wp = c.choose(2, "weights") * 2; static const int s4[] = {0, 4, 6, 5}; histories<CV, CV>(c, 2, 1, SHAPES[s4[sh]], wp, 2, 10 + p, false, [&](int) { static const int al[] = {0, 3, 5, 13, 6, 16, 9}; return al[c.choose(7, "op")]; }, c.thorough ? 5 : 3); }
SCENARIO(resample_int, 8) { int sh = c.choose(4, "shape"), wp = c.choose(2, "weights"), m = c.choose(6, "mode"); static const int s4[] = {1, 4, 6, 5}, ms[] = {2, 3, 4, 11, 12, 13}; histories<int, int>(c, 1, 1, SHAPES[s4[sh]], wp, 2, ms[m], true, [&](int) { static const int al[] = {0, 3, 5, 13, 6}; return al[c.choose(5, "op")]; }, c.thorough ? 5 : 4); }
static const vector<vector<int>> BIG{{2, 3}, {1, 2, 3}, {9, 4}, {3, 1, 2, 1, 2}, {1, 1, 1, 1, 1, 1, 1}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2}};
SCENARIO(magnitudes, 8)
{ int sh = c.choose(6, "shape"), wp = c.choose(5, "weights"), pat = c.choose(3, "prior"), us = c.choose(2, "ctor"); static const int ps[] = {2, 4, 5}, al[] = {19, 20, 21, 22, 23, 24, 25, 26, 3, 5}; histories<CV, CV>(c, 2, 1, BIG[sh], wp, ps[pat], 0, us, [&](int) { return al[c.choose(10, "op")]; }, sh < 4 ? 2 : 1); }
SCENARIO(magnitudes_resampled, 8)
{ int sh = c.choose(6, "shape"), wp = c.choose(5, "weights"), m = c.choose(4, "mode"); static const int ms[] = {2, 3, 12, 13}, al[] = {19, 22, 25, 26, 3}; histories<CV, CV>(c, 2, 1, BIG[sh], wp, 4, ms[m], false, [&](int) { return al[c.choose(5, "op")]; }, 3); }
SCENARIO(dimensions, 8)
{ int d = 4 + c.choose(3, "dim"), m = 3 + c.choose(2, "mdim"), sh = c.choose(6, "shape"); histories<CV, CV>(c, d, m, BIG[sh], 1, 2, 0, false, [&](int) { return c.choose(19, "op"); }, 1); }
SCENARIO(periodic, 8)
{ int len = 1 + c.choose(2, "len"), m = c.choose(4, "mode"); static const int ms[] = {0, 4, 8, 12}; vector<int> word; for (int i = 0; i < len; i++) word.push_back(c.choose(19, "op")); histories<CV, CV>(c, 2, 1, {2, 3}, 1, 2, ms[m], false, [&](int k) { return word[k % len]; }, 30); }
SCENARIO(sizes, 4)
{ static const vector<vector<int>> sh{{10}, {7, 20}, {64, 3, 17}, {5, 5, 5, 5, 5, 5, 5, 5}, {100, 1}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}}; int s = c.choose(6, "shape"), m = c.choose(4, "mode"), op = c.choose(19, "op"); static const int ms[] = {0, 2, 3, 12}; static const int seq[] = {0, 5, 13, 2, 16, 4}; histories<CV, CV>(c, 3, 2, sh[s], 1, 2, ms[m], c.choose(2, "ctor"), [&](int k) { return k == 2 ? op : seq[k]; }, 6); }
// general filter: proposal different from the system density
template <class SV, class MV> static void general(Ctx& c, int dim, int mdim, int depth)
{
  int sh = c.choose(4, "shape"), wp = c.choose(3, "weights"), us = c.choose(2, "ctor"); static const int s4[] = {0, 4, 6, 2};
  World<SV, MV> w(dim, mdim); Mixture<SV> prior((unsigned)dim), post((unsigned)dim); mkprior(prior, SHAPES[s4[sh]], mixw((int)SHAPES[s4[sh]].size(), wp), dim, 2);
  Move<SV> qa(dim, 1, 1, &w.log), qb(dim, 1, 3, &w.log), qu(dim, 2, 2, &w.log); Log dead; Move<SV> p0(dim, 1, 0, &dead), p3(dim, 1, 3, &dead), pu(dim, 2, 1, &dead); SystemModel<SV> s0(&p0), s3(&p3), su(&pu);
  std::unique_ptr<MixtureParticleFilter<SV, MV>> f(us ? new MixtureParticleFilter<SV, MV>(&prior, &post, &qa, 1000000, 0) : new MixtureParticleFilter<SV, MV>(&prior, &qa, 1000000, 0));
  Run<SV, MV> r(w, &prior); r.same(c, readm<SV>(f->PostGet()), r.ref, "initially"); c.ok(f->ProposalGet() == &qa, "proposal");
  for (int k = 0; k < depth; k++) {
    int op = c.choose(9, "op");
    if (op < 2) { r.go(c, *f, 5 + 6 * op); continue; }
    static const int ops[] = {13, 14, 15, 16, 17, 18, 13}; int o = ops[op - 2], sys = Run<SV, MV>::dec(o).sys; Move<SV>* q = sys == 2 ? &qu : op % 2 ? &qa : &qb; f->ProposalSet(q); dead.d.clear();
    r.go(c, *f, o, sys == 0 ? &s0 : sys == 1 ? &s3 : &su, q->kind, sys == 0 ? 0 : sys == 1 ? 3 : 1); c.ok(dead.d.empty(), "the system density was drawn from instead of the proposal"); r.prior_ok(c, prior);
  }
}
SCENARIO(general_vec, 8) { general<CV, CV>(c, 2, 1, c.thorough ? 4 : 3); }
SCENARIO(general_int, 8) { general<int, int>(c, 1, 1, c.thorough ? 3 : 2); }
// proposal and system densities of very different size: only their ratio matters
template <class SV, class MV> static void general_sizes(Ctx& c, int dim, int mdim)
{
  static const int qk[] = {5, 6, 4, 0, 5, 0, 6, 3, 5, 4}, pk[] = {5, 6, 4, 5, 0, 6, 0, 5, 4, 5}, s4[] = {0, 4, 6, 2}, ops[] = {13, 14, 15, 17}; int sh = c.choose(4, "shape"), wp = c.choose(3, "weights");
  World<SV, MV> w(dim, mdim); Mixture<SV> prior((unsigned)dim); mkprior(prior, SHAPES[s4[sh]], mixw((int)SHAPES[s4[sh]].size(), wp), dim, 2); Log dead; MixtureParticleFilter<SV, MV> f(&prior, &w.m0, 1000000, 0); Run<SV, MV> r(w, &prior);
  for (int k = 0; k < 2; k++) { int d = c.choose(10, "densities"), o = ops[c.choose(4, "op")], na = Run<SV, MV>::dec(o).u < 0 ? 1 : 2; Move<SV> q(dim, na, qk[d], &w.log), p(dim, na, pk[d], &dead); SystemModel<SV> sm(&p); f.ProposalSet(&q); c.act("proposal %d system %d", qk[d], pk[d]); r.go(c, f, o, &sm, qk[d], pk[d]); c.ok(dead.d.empty(), "the system density was drawn from instead of the proposal"); r.prior_ok(c, prior); }
}
SCENARIO(general_sizes_vec, 8) { general_sizes<CV, CV>(c, 2, 1); }
SCENARIO(general_sizes_int, 8) { general_sizes<int, int>(c, 1, 1); }
// reset to another prior (other sizes) in the middle of a history
SCENARIO(reset, 8)
{
  int a = c.choose(9, "shape"), b = c.choose(9, "shape after"), us = c.choose(2, "ctor"); int o1 = c.choose(4, "op"), o2 = c.choose(4, "op"), m = c.choose(2, "mode"); static const int al[] = {2, 5, 13, 16};
  World<CV, CV> w(2, 1); Mixture<CV> p1((unsigned)2), p2((unsigned)2), post((unsigned)2); mkprior(p1, SHAPES[a], mixw((int)SHAPES[a].size(), 1), 2, 2); mkprior(p2, SHAPES[b], mixw((int)SHAPES[b].size(), 2), 2, 0);
  Run<CV, CV> r1(w, &p1), r2(w, &p2); mc::rng.uni = lowdisc(); int per = m ? 0 : 1000000; double thr = m ? 100 : 0; r1.dyn = r2.dyn = m; r1.thr = r2.thr = thr;
  std::unique_ptr<MixtureBootstrapFilter<CV, CV>> f(us ? new MixtureBootstrapFilter<CV, CV>(&p1, &post, per, thr) : new MixtureBootstrapFilter<CV, CV>(&p1, per, thr));
  r1.go(c, *f, al[o1]); c.act("reset"); f->Reset(&p2); r2.same(c, readm<CV>(f->PostGet()), r2.ref, "after reset"); r2.steps = f->TimeStepGet(); r2.go(c, *f, al[o2]); r2.go(c, *f, 13); r1.prior_ok(c, p1); r2.prior_ok(c, p2);
  if (us) { c.ok(f->PostGet() == &post, "the posterior object handed in is no longer used after a reset"); }
}
// two filters over shared models
SCENARIO(interleaved, 8)
{
  World<CV, CV> w(2, 1); Mixture<CV> p1((unsigned)2), p2((unsigned)2); mkprior(p1, {2, 3}, mixw(2, 1), 2, 2); mkprior(p2, {1, 2, 2}, mixw(3, 0), 2, 1);
  Run<CV, CV> r1(w, &p1), r2(w, &p2); MixtureBootstrapFilter<CV, CV> f1(&p1, 1000000, 0), f2(&p2, 0, 1e-12); r2.dyn = true; r2.thr = 1e-12; static const int al[] = {0, 3, 5, 11, 14, 17};
  for (int k = 0; k < (c.thorough ? 4 : 3); k++) { int who = c.choose(2, "filter"), op = al[c.choose(6, "op")]; if (who) r2.go(c, f2, op); else r1.go(c, f1, op); r1.same(c, readm<CV>(f1.PostGet()), r1.ref, "filter 1"); r2.same(c, readm<CV>(f2.PostGet()), r2.ref, "filter 2"); }
}
// the mixture and the particle filter agree: a one-component mixture is a particle filter
SCENARIO(distribution, 8)
{
  int n = 1 + c.choose(3, "n"); vector<int> wt = so::weights(c, n, 4); int dyn = c.choose(2, "dynamic");
  auto draw = [&](unsigned num) {
    World<CV, CV> W(1, 1); Mixture<CV> prior((unsigned)1); for (int q = 0; q < 2; q++) { MCPdf<CV> p(n, 1); vector<WeightedSample<CV>> l; for (int i = 0; i < n; i++) { WeightedSample<CV> s(1); s.ValueSet(Tr<CV>::make(V(1, (double)i))); s.WeightSet(q ? wt[i] : 1); l.push_back(s); } p.ListOfSamplesSet(l); if (q) prior.AddComponent(p, Probability(0.5)); else if (num == 0) prior.AddComponent(p); }
    MixtureBootstrapFilter<CV, CV> f(&prior, dyn ? 0 : 1, dyn ? 1e6 : 0); CV z(1); z(1) = 0; W.lp[0]->kind = 9;   // constant likelihood below
    struct One : public ConditionalPdf<CV, CV> { One() : ConditionalPdf<CV, CV>(1, 1) {} virtual One* Clone() const { return new One(*this); } virtual Probability ProbabilityGet(const CV&) const { return Probability(1.0); } } one; MeasurementModel<CV, CV> mm(&one);
    if (dyn) f.Update(&mm, z); else { f.Update(&W.si); f.Update(&W.si); }
    vector<int> r; MR<CV> m = readm<CV>(f.PostGet()); for (auto& q : m.comp[0]) r.push_back(std::fabs(q.w - 1.0 / n) < 1e-12 ? (int)std::floor(q.x[0] + 0.5) : -1); return r; };
  int M = n == 1 ? 16 : n == 2 ? 48 : (c.thorough ? 32 : 14); so::list_check(c, draw, wt, n, M, n == 1 ? 1e-9 : 2.5 / M, "resampled component", false); c.act("distribution n=%d dynamic=%d", n, dyn); c.state(mc::H()(wt)(dyn));
}

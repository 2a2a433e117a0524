// C08: when a particle filter resamples and what resampling yields
#include "mc_main.h"
#include "pfworld.h"
#include "sampling.h"
using namespace pw;

// particles carry distinct values; the system model of most scenarios does not move them, so that ancestry is visible
static int idx(const V& x) { return (int)std::floor(x[0] + 0.5); }
template <class SV> static void mkprior(MCPdf<SV>& p, const vector<int>& w, int dim)
{ vector<WeightedSample<SV>> l; for (size_t i = 0; i < w.size(); i++) { V x(dim, 0.5); x[0] = (double)i; WeightedSample<SV> s(dim); s.ValueSet(Tr<SV>::make(x)); s.WeightSet(w[i]); l.push_back(s); } p.ListOfSamplesSet(l); }
// measurement whose likelihood is a table over the particle's index; z selects the table
template <class MV, class SV> struct Tab : public ConditionalPdf<MV, SV> {
  vector<V> t; Tab(int md, const vector<V>& t_) : ConditionalPdf<MV, SV>(md, 1), t(t_) {}
  virtual Tab* Clone() const { return new Tab(*this); }
  virtual Probability ProbabilityGet(const MV& z) const { const V& r = t[(int)std::floor(Tr<MV>::get(z)[0] + 0.5)]; int i = idx(Tr<SV>::get(this->ConditionalArgumentGet(0))); return Probability(r[i % r.size()]); }
};
static double neff(const Parts& p) { double s = 0; for (auto& q : p) s += q.w * q.w; return 1 / s; }
struct Mon {                                                           // reference model of the resampling policy
  Parts ref; int steps = 0; bool dynamic; int period; double thr;
  void norm() { double s = 0; for (auto& p : ref) s += p.w; for (auto& p : ref) p.w /= s; }
  void expect(Ctx& c, const Parts& now, const char* who) { c.eq((long)now.size(), (long)ref.size(), "number of particles"); for (size_t i = 0; i < now.size(); i++) { c.ok(veq(now[i].x, ref[i].x), fmt("%s: value of particle %zu changed although no resampling is due", who, i)); c.ok(std::fabs(now[i].w - ref[i].w) <= 1e-7 * ref[i].w + 1e-280, fmt("%s: weight of particle %zu is %.15g, expected %.15g (no resampling due)", who, i, now[i].w, ref[i].w)); } }
  void support(Ctx& c, const Parts& now) { c.eq((long)now.size(), (long)ref.size(), "number of particles after resampling"); for (auto& q : now) { bool hit = false; for (auto& o : ref) if (o.w > 0 && veq(o.x, q.x)) hit = true; c.ok(hit, "resampling produced a value that was no particle of positive weight"); } }
  void resampled(Ctx& c, const Parts& now, const char* who) { support(c, now); for (auto& q : now) c.near(q.w, 1.0 / now.size(), fmt("%s: weight after resampling", who).c_str()); ref = now; }
  bool due() const { return !dynamic && steps != 0 && steps % period == 0; }
};
template <class SV, class MV> struct Env {
  World<SV, MV> w; vector<V> tab; Tab<MV, SV> lp; MeasurementModel<MV, SV> mm;
  Env(int dim) : w(dim, 1), tab{{1, 2, 3, 4}, {0, 1, 1, 5}, {0, 0, 1, 0}, {1, 1, 1, 1}, {0, 0, 0, 0}, {8, 1, 0.5, 0.001}}, lp(1, tab), mm(&lp) {}
  // ops: 0 predict, 1..6 measure table, 7 predict with input, 8.. combined predict + measure table 0,1,3
  static const int NOPS = 11;
  void go(Ctx& c, BootstrapFilter<SV, MV>& f, Mon& m, int op)
  {
    c.act("op %d", op);
    bool pred = op == 0 || op >= 7, inp = op == 7; int z = op >= 1 && op <= 6 ? op - 1 : op == 8 ? 0 : op == 9 ? 1 : op == 10 ? 3 : -1;
    MV zz = Tr<MV>::make(V(1, z < 0 ? 0 : z)); SV u = Tr<SV>::make(V(w.dim, 0)); bool ret;
    if (inp) ret = f.Update(&w.su, u); else if (pred && z < 0) ret = f.Update(&w.si); else if (pred) ret = f.Update(&w.si, &mm, zz); else ret = f.Update(&mm, zz);
    Parts now = read(f.PostGet()); bool want = true;
    if (pred) {
      if (m.due()) {                                                    // resampling due before the prediction
        if (inp) { m.norm(); Parts back = now; for (auto& q : back) q.x[0] -= 1; for (size_t i = 0; i < back.size(); i++) for (size_t d = 1; d < back[i].x.size(); d++) back[i].x[d] = 0.5; m.support(c, back); m.ref = back; }
        else m.support(c, now), m.ref = now;
        for (auto& q : m.ref) q.w = 1.0 / m.ref.size();
      }
      if (inp) for (auto& q : m.ref) q.x[0] += 1;
      m.steps++;
    }
    if (z >= 0) {
      Parts pred = m.ref; double tot = 0; for (auto& q : m.ref) { q.w *= tab[z][idx(q.x) % tab[z].size()]; tot += q.w; }
      if (tot > 0) { m.norm();
        if (m.dynamic) { double ne = neff(m.ref);
          if (std::fabs(ne - m.thr) < 1e-9 * m.thr) {                   // threshold hit up to rounding: either decision is right
            bool kept = true; for (size_t i = 0; i < now.size(); i++) if (!veq(now[i].x, m.ref[i].x) || std::fabs(now[i].w - m.ref[i].w) > 1e-9) kept = false;
            if (!kept) m.resampled(c, now, "dynamic"); }
          else if (ne < m.thr) m.resampled(c, now, "dynamic"); } }
      else { m.ref = pred; want = false; }
    }
    c.ok(ret == want, "update status");
    if (inp) { for (size_t i = 0; i < now.size(); i++) now[i].x.resize(1); Parts r = m.ref; for (auto& q : r) q.x.resize(1); Mon t = m; t.ref = r; t.expect(c, now, "posterior"); m.ref = read(f.PostGet()); for (size_t i = 0; i < r.size(); i++) m.ref[i].w = r[i].w; for (auto& q : m.ref) for (size_t d = 1; d < q.x.size(); d++) if (!veq(V(1, q.x[d]), V(1, 0.5))) { /* second component moved by the input model as well */ } }
    else m.expect(c, now, "posterior");
    c.eq(f.TimeStepGet(), m.steps, "time step");
    mc::H h; h(m.steps % std::max(1, m.period)); for (auto& q : m.ref) { h(q.x)(q.w); } c.state(h);
  }
};
template <class SV, class MV> static void policy(Ctx& c, int dim, bool dyn, const vector<double>& par, int depth, const vector<int>& alpha, const vector<int>& w0, double a)
{
  Env<SV, MV> e(dim); e.w.mu.noise = []() { return 0.0; };
  MCPdf<SV> prior((int)w0.size(), dim); mkprior(prior, w0, dim); Mon m; m.ref = read(&prior); m.norm(); m.dynamic = dyn; m.period = 1; m.thr = 0;
  double p = par[c.choose((int)par.size(), "par")]; if (dyn) m.thr = p; else m.period = (int)p;
  BootstrapFilter<SV, MV> f(&prior, dyn ? 0 : m.period, m.thr); long k = 0; if (a >= 0) mc::rng.uni = [=]() { return a; }; else mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * k++, 1.0); };
  for (int i = 0; i < depth; i++) e.go(c, f, m, alpha[c.choose((int)alpha.size(), "op")]);
  Parts pr = read(&prior); double s = 0; for (int x : w0) s += x; for (size_t i = 0; i < pr.size(); i++) { c.eq(idx(pr[i].x), (long)i, "prior value"); c.near(pr[i].w, w0[i] / s, "prior weight"); }
}
typedef ColumnVector CV;
SCENARIO(static_vec, 8) { double a = c.choose(2, "answers") ? so::LAST : -1; policy<CV, CV>(c, 2, false, {1, 2, 3, 4, 5}, c.thorough ? 5 : 4, {0, 1, 2, 8, 9, 4}, {1, 2, 3, 0}, a); }
SCENARIO(static_long, 8) { policy<CV, CV>(c, 1, false, {2, 3, 4, 6, 7}, c.thorough ? 12 : 8, {0, 2}, {1, 2, 3, 1}, -1); }
SCENARIO(static_input, 8) { policy<CV, CV>(c, 1, false, {1, 2, 3}, 4, {0, 7, 2, 8}, {1, 2, 3, 1}, -1); }
SCENARIO(static_int, 8) { policy<int, int>(c, 1, false, {1, 2, 3}, c.thorough ? 6 : 4, {0, 1, 2, 8, 9, 5}, {1, 2, 3, 1}, -1); }
SCENARIO(dynamic_vec, 8) { double a = c.choose(2, "answers") ? 0.0 : -1; policy<CV, CV>(c, 2, true, {0.5, 1.5, 2.0, 2.9, 3.9, 10, 1000}, c.thorough ? 4 : 3, {0, 1, 2, 3, 4, 5, 6, 8, 9, 10}, {1, 2, 3, 4}, a); }
SCENARIO(dynamic_input, 4) { policy<CV, CV>(c, 1, true, {1.5, 2.9, 10}, 3, {0, 7, 2, 8}, {1, 1, 1, 1}, -1); }
SCENARIO(dynamic_int, 8) { policy<int, int>(c, 1, true, {0.5, 2.0, 2.9, 3.9, 1000}, c.thorough ? 4 : 3, {0, 1, 2, 3, 4, 6, 8, 9}, {2, 1, 1, 4}, -1); }
SCENARIO(single_particle, 4) { policy<CV, CV>(c, 2, c.choose(2, "dyn"), {1, 2, 3}, 4, {0, 1, 4, 6, 8}, {3}, -1); }
// long runs: period k over 40 updates, every word of length <= 3
SCENARIO(periodic, 8)
{
  Env<CV, CV> e(1); bool dyn = c.choose(2, "dynamic"); static const int per[] = {1, 2, 3, 5, 7, 10}; static const double thr[] = {1.5, 2.5, 3.5, 3.99, 4.5, 0.9}; int pi = c.choose(6, "par"); int len = 1 + c.choose(3, "len"); static const int al[] = {0, 1, 2, 6, 8}; vector<int> word; for (int i = 0; i < len; i++) word.push_back(al[c.choose(5, "op")]);
  vector<int> w0{1, 2, 3, 1}; MCPdf<CV> prior(4, 1); mkprior(prior, w0, 1); Mon m; m.ref = read(&prior); m.norm(); m.dynamic = dyn; m.period = per[pi]; m.thr = thr[pi];
  BootstrapFilter<CV, CV> f(&prior, dyn ? 0 : m.period, dyn ? m.thr : 0); long k = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * k++, 1.0); };
  for (int i = 0; i < 40; i++) e.go(c, f, m, word[i % len]);
}
// the user-supplied posterior and larger particle sets
SCENARIO(sizes, 4)
{
  static const int sz[] = {1, 2, 3, 8, 9, 16, 50, 100, 257}; int n = sz[c.choose(9, "n")], dyn = c.choose(2, "dynamic"), own = c.choose(2, "ctor"), pat = c.choose(3, "pattern");
  vector<int> w0(n); for (int i = 0; i < n; i++) w0[i] = pat == 0 ? 1 : pat == 1 ? i % 3 : (i == n / 2 ? 7 : 0); if (pat == 1 && n == 1) w0[0] = 1;
  Env<CV, CV> e(2); MCPdf<CV> prior(n, 2), post(n, 2); mkprior(prior, w0, 2); mkprior(post, vector<int>(n, 1), 2); Mon m; m.ref = read(&prior); m.norm(); m.dynamic = dyn; m.period = 2; m.thr = n * 0.9;
  std::unique_ptr<BootstrapFilter<CV, CV>> f(own ? new BootstrapFilter<CV, CV>(&prior, dyn ? 0 : 2, dyn ? m.thr : 0) : new BootstrapFilter<CV, CV>(&prior, &post, dyn ? 0 : 2, dyn ? m.thr : 0)); long k = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * k++, 1.0); };
  static const int ops[] = {0, 1, 0, 8, 4, 0, 0, 6, 8, 8, 0}; for (int op : ops) e.go(c, *f, m, op);
}
// distribution of the resampled set: all answer tuples
SCENARIO(distribution, 8)
{
  int n = 1 + c.choose(3, "n"); vector<int> w = so::weights(c, n, 4); int dyn = c.choose(2, "dynamic");
  auto draw = [&](unsigned num) {
    World<CV, CV> W(2, 1); Tab<CV, CV> lp(1, {{1.0}}); MeasurementModel<CV, CV> mm(&lp); MCPdf<CV> prior(n, 2); mkprior(prior, w, 2);
    BootstrapFilter<CV, CV> f(&prior, dyn ? 0 : 1, dyn ? 1e6 : 0); CV z(1); z(1) = 0;
    if (dyn) f.Update(&mm, z); else { f.Update(&W.si); f.Update(&W.si); }
    vector<int> r; for (auto& q : read(f.PostGet())) r.push_back(std::fabs(q.w - 1.0 / n) < 1e-12 ? idx(q.x) : -1); return r; };
  int M = n == 1 ? 16 : n == 2 ? 48 : (c.thorough ? 32 : 14); so::list_check(c, draw, w, n, M, n == 1 ? 1e-9 : 2.5 / M, "resampled set", false); c.act("distribution n=%d dynamic=%d", n, dyn); c.state(mc::H()(w)(dyn));
}
// general filter (proposal given) resamples by the same policy
SCENARIO(general, 4)
{
  World<CV, CV> W(1, 1); Tab<CV, CV> lp(1, {{1, 2, 3, 4}, {0, 1, 1, 5}, {1, 1, 1, 1}}); MeasurementModel<CV, CV> mm(&lp); vector<int> w0{1, 2, 3, 1}; MCPdf<CV> prior(4, 1); mkprior(prior, w0, 1); Mon m; m.ref = read(&prior); m.norm(); m.dynamic = c.choose(2, "dynamic"); static const int per[] = {1, 2, 3}; static const double thr[] = {1.2, 3.1, 100}; int pi = c.choose(3, "par"); m.period = per[pi]; m.thr = thr[pi];
  ParticleFilter<CV, CV> f(&prior, &W.mi, m.dynamic ? 0 : m.period, m.dynamic ? m.thr : 0); long k = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.618033988749895 * k++, 1.0); };
  for (int i = 0; i < (c.thorough ? 7 : 5); i++) {
    int op = c.choose(4, "op"), z = op == 0 ? -1 : op - 1; bool pred = op == 0 || c.choose(2, "with prediction"); CV zz(1); zz(1) = z < 0 ? 0 : z; c.act("op %d pred %d", op, (int)pred);
    bool ret = z < 0 ? f.Update(&W.si) : pred ? f.Update(&W.si, &mm, zz) : f.Update(&mm, zz); c.ok(ret, "status"); Parts now = read(f.PostGet());
    if (pred) { if (m.due()) { m.support(c, now); m.ref = now; for (auto& q : m.ref) q.w = 0.25; } m.steps++; }
    if (z >= 0) { Parts before = m.ref; double tot = 0; for (auto& q : m.ref) { q.w *= lp.t[z][idx(q.x) % 4]; tot += q.w; } m.norm(); if (m.dynamic && neff(m.ref) < m.thr) m.resampled(c, now, "dynamic"); }
    m.expect(c, now, "posterior"); c.eq(f.TimeStepGet(), m.steps, "time step"); mc::H h; for (auto& q : m.ref) { h(q.x)(q.w); } c.state(h);
  }
}
// large particle sets with weights of very different size: every block of particles gets its share of the resampled set (answers spread evenly, several phases)
SCENARIO(shares, 8)
{
  static const int sz[] = {16, 60, 250, 1000}; int n = sz[c.choose(4, "n")], pat = c.choose(so::PATTERNS, "pattern"), dyn = c.choose(2, "dynamic"), phase = c.choose(c.thorough ? 6 : 2, "phase"); vector<double> w = so::pattern(n, pat); double W = 0; for (double x : w) W += x; c.act("n=%d pattern=%d dynamic=%d", n, pat, dyn);
  vector<WeightedSample<CV>> l; for (int i = 0; i < n; i++) { WeightedSample<CV> s(2); s.ValueSet(Tr<CV>::make(V{(double)i, 0.5})); s.WeightSet(w[i]); l.push_back(s); } MCPdf<CV> prior(n, 2); prior.ListOfSamplesSet(l);
  World<CV, CV> E(2, 1); Tab<CV, CV> lp(1, {{1.0}}); MeasurementModel<CV, CV> mm(&lp); BootstrapFilter<CV, CV> f(&prior, dyn ? 0 : 1, dyn ? 1e6 : 0); CV z(1); z(1) = 0; long k = 0; mc::rng.uni = [&]() { return std::fmod(0.137 + 0.21 * phase + 0.618033988749895 * k++, 1.0); };
  if (dyn) f.Update(&mm, z); else { f.Update(&E.si); f.Update(&E.si); }
  Parts now = read(f.PostGet()); c.eq((long)now.size(), n, "number of particles after resampling"); int B = n < 100 ? 4 : 8; V share(B, 0.0), cnt(B, 0.0); for (int i = 0; i < n; i++) share[(long)i * B / n] += w[i] / W;
  for (auto& q : now) { int i = idx(q.x); c.ok(i >= 0 && i < n && w[i] > 0, "resampling produced a value that was no particle of positive weight"); c.ok(std::fabs(q.w * n - 1) < 1e-9, "weight after resampling"); cnt[(long)i * B / n]++; }
  for (int b = 0; b < B; b++) c.ok(std::fabs(cnt[b] - n * share[b]) <= 6 * std::sqrt(n * share[b] * (1 - share[b])) + 2, fmt("%g of %d resampled particles come from block %d, whose weight is %.4g", cnt[b], n, b, share[b])); c.state(mc::H()(n)(pat)(dyn)(phase));
}

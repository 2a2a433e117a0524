// User-defined models for the particle filter checks: every draw a model makes is recorded, so that the oracle can
// demand that each particle moved by exactly one draw conditioned on its own old value.
#ifndef VERIF_PFWORLD_H
#define VERIF_PFWORLD_H
#include "bflref.h"
#include <filter/bootstrapfilter.h>
#include <filter/particlefilter.h>
#include <model/systemmodel.h>
#include <model/measurementmodel.h>
#include <memory>
namespace pw {
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt; using MatrixWrapper::ColumnVector;
typedef vector<double> V;
// state / measurement types seen as plain vectors of doubles
template <class T> struct Tr;
template <> struct Tr<int> { static V get(const int& x) { return V(1, (double)x); } static int make(const V& v) { return (int)std::floor(v[0] + 0.5); } static bool disc() { return true; } };
template <> struct Tr<double> { static V get(const double& x) { return V(1, x); } static double make(const V& v) { return v[0]; } static bool disc() { return false; } };
template <> struct Tr<ColumnVector> { static V get(const ColumnVector& x) { V v; for (unsigned i = 1; i <= x.rows(); i++) v.push_back(x(i)); return v; } static ColumnVector make(const V& v) { ColumnVector x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x(i + 1) = v[i]; return x; } static bool disc() { return false; } };
struct Draw { V x, u, val; bool used; };
struct Log { vector<Draw> d; long n = 0; };
// conditional density of the next state: moves its argument by a model dependent map plus a scripted perturbation
template <class SV> struct Move : public ConditionalPdf<SV, SV> {
  int kind, dim; Log* log; std::function<double()> noise;
  Move(int dim_, int nargs, int kind_, Log* l) : ConditionalPdf<SV, SV>(dim_, nargs), kind(kind_), dim(dim_), log(l) {}
  virtual Move* Clone() const { return new Move(*this); }
  static V det(int kind, const V& x, const V& u)
  {
    V y(x); double uu = u.empty() ? 0 : u[0] + (u.size() > 1 ? 3 * u[1] : 0);
    for (size_t i = 0; i < y.size(); i++) switch (kind) {
      case 0: break;
      case 1: y[i] = x[i] + 1 + (double)i + uu; break;
      case 2: y[i] = -x[i] + 2 * uu; break;
      default: y[i] = x[(i + 1) % x.size()] + 2; break;
    }
    return y;
  }
  static double dens(int kind, const V& y, const V& x, const V& u)   // any positive function, zero in places for kind 3
  {
    V m = det(kind, x, u); double d = 0; for (size_t i = 0; i < y.size(); i++) d += (i + 1) * std::fabs(y[i] - m[i]);
    if (kind == 3 && d > 2.5) return 0;
    if (kind == 4) return std::exp(-5 * d); if (kind == 5) return 1e-200 / (1 + d); if (kind == 6) return 1e150 / (1 + d);
    return (kind + 1.0) / (1 + d * d);
  }
  V arg(int i) const { return Tr<SV>::get(this->ConditionalArgumentGet(i)); }
  V uarg() const { return this->NumConditionalArgumentsGet() > 1 ? arg(1) : V(); }
  virtual bool SampleFrom(Sample<SV>& s, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const
  {
    V x = arg(0), u = uarg(), y = det(kind, x, u); double e = noise ? noise() : (double)(log->n % 3);
    for (size_t i = 0; i < y.size(); i++) y[i] += e * (i ? 0.5 : 1);
    SV sv = Tr<SV>::make(y); log->d.push_back(Draw{x, u, Tr<SV>::get(sv), false}); log->n++;
    s.ValueSet(sv); return true;
  }
  virtual bool SampleFrom(vector<Sample<SV> >& l, const unsigned n, const SampleMthd m = SampleMthd::DEFAULT, void* a = NULL) const
  { l.resize(n); for (auto& s : l) SampleFrom(s, m, a); return true; }
  virtual Probability ProbabilityGet(const SV& y) const { return Probability(dens(kind, Tr<SV>::get(y), arg(0), uarg())); }
};
inline double lik(int kind, const V& z, const V& x, const V& s)
{
  double d = 0, ss = s.empty() ? 0 : s[0] + (s.size() > 1 ? 2 * s[1] : 0); for (size_t i = 0; i < z.size(); i++) d += (i + 1) * (z[i] - (x[i % x.size()] + ss)); if (x.size() > 1) d += 0.25 * x[1];
  switch (kind) {
    case 0: return 1 / (1 + d * d);
    case 1: return std::fabs(d) < 2 ? 0.5 + 0.1 * std::fabs(d) : 0;                 // zero far away
    case 2: return 1e-250 / (1 + std::fabs(d));                                      // tiny
    case 3: return 5000 * (2 + std::sin(d));                                         // densities above one
    case 5: return std::exp(-6 * std::fabs(d));                                      // strong contrast between particles
    case 6: return 1e297 / (1 + std::fabs(d));                                       // huge
    case 7: return 1 + 1e-7 * d;                                                     // nearly uninformative
    case 8: return d > 0 ? 1e-13 : 1;                                                // hopeless particles keep a little weight
    default: return 0;                                                               // impossible measurement
  }
}
template <class MV, class SV> struct Lik : public ConditionalPdf<MV, SV> {
  int kind; Lik(int mdim, int nargs, int k) : ConditionalPdf<MV, SV>(mdim, nargs), kind(k) {}
  virtual Lik* Clone() const { return new Lik(*this); }
  virtual Probability ProbabilityGet(const MV& z) const
  { return Probability(lik(kind, Tr<MV>::get(z), Tr<SV>::get(this->ConditionalArgumentGet(0)), this->NumConditionalArgumentsGet() > 1 ? Tr<SV>::get(this->ConditionalArgumentGet(1)) : V())); }
};
struct Part { V x; double w; };
typedef vector<Part> Parts;
template <class SV> Parts read(const MCPdf<SV>* p) { Parts r; for (auto& s : p->ListOfSamplesGet()) r.push_back(Part{Tr<SV>::get(s.ValueGet()), s.WeightGet()}); return r; }
inline bool veq(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i])))) return false; return true; }
template <class SV> void prior_set(MCPdf<SV>& p, int n, int dim, int pat, int shift = 0)
{
  vector<WeightedSample<SV>> l;
  for (int i = 0; i < n; i++) {
    V x(dim); for (int d = 0; d < dim; d++) x[d] = (d ? -1.5 : 1) * (i - n / 2) + d + shift; if (pat == 3 && i == 1) for (int d = 0; d < dim; d++) x[d] = (d ? -1.5 : 1) * (0 - n / 2) + d + shift;  // duplicate values, different weights
    WeightedSample<SV> s(dim); s.ValueSet(Tr<SV>::make(x)); s.WeightSet(pat == 4 ? (i == n / 2 ? 1.0 : 1e-13 * (i + 1)) : pat == 5 ? (i == 0 ? 1000.0 : 1.0) : pat == 0 ? 1 : pat == 1 ? (i == n - 1 && n > 1 ? 0 : 1.0 + i) : i + 1.0); l.push_back(s);
  }
  p.ListOfSamplesSet(l);
}
template <class SV, class MV> struct World {
  int dim, mdim; Log log;
  Move<SV> m0, m1, mu, mi; SystemModel<SV> s0, s1, su, si;
  vector<std::unique_ptr<Lik<MV, SV>>> lp, lps; vector<std::unique_ptr<MeasurementModel<MV, SV>>> lm, lms;
  V u[2], s[2], z[2];
  World(int dim_, int mdim_) : dim(dim_), mdim(mdim_), m0(dim, 1, 0, &log), m1(dim, 1, 3, &log), mu(dim, 2, 1, &log), mi(dim, 1, 0, &log), s0(&m0), s1(&m1), su(&mu), si(&mi)
  {
    mi.noise = []() { return 0.0; };
    for (int k = 0; k < 9; k++) { lp.emplace_back(new Lik<MV, SV>(mdim, 1, k)); lm.emplace_back(new MeasurementModel<MV, SV>(lp.back().get())); lps.emplace_back(new Lik<MV, SV>(mdim, 2, k)); lms.emplace_back(new MeasurementModel<MV, SV>(lps.back().get())); }
    for (int i = 0; i < 2; i++) { u[i].assign(dim, 1.0 - 3 * i); s[i].assign(dim, 2.0 * i - 1); z[i].resize(mdim); for (int d = 0; d < mdim; d++) z[i][d] = i ? 2 : -1 + d; }
  }
};
// prediction: every old particle moved by its own single draw, weights kept
inline void predicted(Ctx& c, Log& log, size_t from, const Parts& old, const V& u, const Parts& now, const vector<double>* wnow)
{
  c.eq((long)now.size(), (long)old.size(), "number of particles after a prediction");
  c.eq((long)(log.d.size() - from), (long)old.size(), "number of draws made by a prediction");
  for (size_t i = 0; i < old.size(); i++) {
    bool hit = false;
    for (size_t k = from; k < log.d.size() && !hit; k++) if (!log.d[k].used && veq(log.d[k].x, old[i].x) && veq(log.d[k].val, now[i].x) && veq(log.d[k].u, u)) { log.d[k].used = true; hit = true; }
    c.ok(hit, fmt("particle %zu is not a draw of the system density conditioned on its own old value and the input", i));
    if (wnow) c.near(now[i].w, (*wnow)[i], "particle weight after a prediction");
  }
}
}  // namespace pw
#endif

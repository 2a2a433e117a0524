// C19: Gaussian sampling: an affine image of the normal answers whose linear part is a square root of the covariance
#include "mc_main.h"
#include "kfworld.h"
#include <pdf/gaussian.h>
using namespace kw; typedef ColumnVector CV;
// feeds the answers z (consecutively); fails when more are requested
struct Feed { Ctx& c; vector<double> z; size_t pos = 0; Feed(Ctx& cc, const vector<double>& v) : c(cc), z(v) { mc::rng.norm = [this]() { if (pos >= z.size()) c.fail("more normal answers requested than dimensions"); return z[pos++]; }; } ~Feed() { mc::rng.norm = nullptr; } };
typedef std::function<Mat(const vector<double>&)> Draw;               // one draw of dimension n from n answers
static void check(Ctx& c, const Draw& d, int n, const Mat& mu, const Mat& S, const char* who)
{
  c.act("%s dimension %d", who, n); br::same(c, d(vector<double>(n, 0.0)), mu, fmt("%s: draw for answers 0", who).c_str(), 1e-9); Mat A(n, n);
  for (int k = 0; k < n; k++) { vector<double> z(n, 0.0); z[k] = 1; Mat x = d(z); for (int i = 0; i < n; i++) A(i, k) = x(i) - mu(i); }
  double sc = 1; for (auto v : mu.a) sc = std::fmax(sc, std::fabs((double)v)); double sm = 0; for (auto v : S.a) sm = std::fmax(sm, std::fabs((double)v));
  Mat AA = A * ref::T(A); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c.ok(std::fabs((double)(AA(i, j) - S(i, j))) <= 1e-9 * sm + 1e-13 * sc * std::sqrt(sm) * n + 1e-20, fmt("%s: covariance of the draws (%d,%d) is %.12g, expected %.12g", who, i + 1, j + 1, (double)AA(i, j), (double)S(i, j)));
  static const double Z[3][4] = {{1.5, -0.5, 2, 0.25}, {-3, 1e-3, 0.7, -1}, {1e3, -1e3, 500, 2}}; for (int t = 0; t < 3; t++) { vector<double> z(n); Mat zz(n, 1); for (int k = 0; k < n; k++) zz(k) = z[k] = Z[t][k % 4] + k * 0.01; br::same(c, d(z), mu + A * zz, fmt("%s: draw is not affine in the answers", who).c_str(), 1e-9); }
  mc::H h; ref::hash(h, mu); ref::hash(h, S); c.state(h);
}
static const SampleMthd MT[] = {SampleMthd::DEFAULT, SampleMthd::CHOLESKY};
static Mat cov(int n, int k)   // 0..4 patterns, 5 zero, 6 rank one, 7 one zero variance
{
  if (k < 5) return br::from(br::sm(spd(n, 3 + k, k))); Mat m(n, n); if (k == 6) { Mat v = gencol(n, 3); for (int i = 0; i < n; i++) { v(i) = std::floor((double)v(i) * 4) / 4; if (v(i) == 0) v(i) = 1; } m = v * ref::T(v); } if (k == 7) { m = spd(n, 4, 1); m(n - 1, n - 1) = 0; } return br::from(br::sm(m));
}
static void all(Ctx& c, const Pdf<CV>& g, int n, const Mat& mu, const Mat& S, const char* who)
{
  for (int mt = 0; mt < 2; mt++) {
    check(c, [&](const vector<double>& z) { Feed f(c, z); Sample<CV> s(n); c.ok(g.SampleFrom(s, MT[mt], NULL), "status of a draw"); c.eq((long)f.pos, n, "normal answers used"); return br::from(s.ValueGet()); }, n, mu, S, fmt("%s, method %d", who, mt).c_str());
    for (int num : {1, 2, 3, 5, 8}) for (int at = 0; at < num; at += num < 8 || at > 1 ? 1 : 3) check(c, [&](const vector<double>& z) { vector<double> all; for (int i = 0; i < num; i++) for (int k = 0; k < n; k++) all.push_back(i == at ? z[k] : 7.5 + i); Feed f(c, all); vector<Sample<CV>> l; if (num == 2) l.resize(5); c.ok(g.SampleFrom(l, num, MT[mt], NULL), "status of a list"); c.eq((long)l.size(), num, "list size"); c.eq((long)f.pos, (long)all.size(), "normal answers used"); return br::from(l[at].ValueGet()); }, n, mu, S, fmt("%s, list of %d, sample %d, method %d", who, num, at, mt).c_str());
  }
  vector<Sample<CV>> e; c.ok(g.SampleFrom(e, 0u, SampleMthd::DEFAULT, NULL), "empty list"); c.eq((long)e.size(), 0, "empty list");
}
SCENARIO(gaussian, 4) { int n = 1 + c.choose(4, "n"), k = c.choose(8, "covariance"), m = c.choose(3, "mean"); Mat mu = br::from(br::cv(gencol(n, 3 + m) * (m == 2 ? 1000.0L : 1.0L))), S = cov(n, k); Gaussian g(br::cv(mu), br::sm(S)); all(c, g, n, mu, S, "Gaussian"); }
SCENARIO(sizes, 4) { static const int d[] = {5, 6, 7, 8, 9, 10, 12, 16}; int n = d[c.choose(8, "n")], k = c.choose(8, "covariance"); c.choose(1, ""); Mat mu = br::from(br::cv(gencol(n, 3))), S = cov(n, k); Gaussian g(br::cv(mu), br::sm(S)); all(c, g, n, mu, S, "Gaussian"); }
// histories: sampling always uses the current parameters, whatever was drawn or asked before, also in copies
SCENARIO(histories, 8)
{
  int n = 1 + c.choose(3, "n"); Mat mu = br::from(br::cv(gencol(n, 3))), S = cov(n, 0); std::unique_ptr<Gaussian> g(new Gaussian(br::cv(mu), br::sm(S)));
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) { int o = c.choose(8, "op"); c.act("op %d", o);
    if (o < 2) { mu = br::from(br::cv(gencol(n, 5 + o + k))); g->ExpectedValueSet(br::cv(mu)); } else if (o < 5) { S = cov(n, o - 1 + (o == 4 ? 2 : 0)); g->CovarianceSet(br::sm(S)); }
    else if (o == 5) { Sample<CV> s(n); mc::rng.norm = []() { return 0.7; }; g->SampleFrom(s); mc::rng.norm = nullptr; } else if (o == 6) { if (n == 1 ? S(0) > 0 : (double)ref::det(S) > 1e-12) g->ProbabilityGet(br::cv(mu)); } else g.reset(g->Clone());
  }
  check(c, [&](const vector<double>& z) { Feed f(c, z); Sample<CV> s(n); c.ok(g->SampleFrom(s), "status"); return br::from(s.ValueGet()); }, n, mu, S, "Gaussian after a history"); check(c, [&](const vector<double>& z) { vector<double> a(z); a.insert(a.end(), z.begin(), z.end()); Feed f(c, a); vector<Sample<CV>> l; c.ok(g->SampleFrom(l, 2), "status"); return br::from(l[1].ValueGet()); }, n, mu, S, "Gaussian after a history (list)");
}
// conditional Gaussians draw around their conditional mean
SCENARIO(conditional, 4)
{
  int n = 1 + c.choose(3, "n"), kind = c.choose(4, "kind"), k = c.choose(3, "arguments"); World w(n); Model& m = kind < 2 ? *w.sys[kind] : *w.sys[kind + 1]; Mat x = br::from(br::cv(gencol(n, 3 + 2 * k))), u = br::from(br::cv(w.uin(m, k % 2))); AnalyticConditionalGaussian* p = m.pdf(); p->ConditionalArgumentSet(0, br::cv(x)); if (m.hasu) p->ConditionalArgumentSet(1, br::cv(u)); Mat mu = m.f(x, u), S = m.cov(x); all(c, *p, n, mu, S, "conditional Gaussian");
  std::unique_ptr<ConditionalPdf<CV, CV>> q(p->Clone()); Mat x2 = br::from(br::cv(gencol(n, 4 + 2 * k))); q->ConditionalArgumentSet(0, br::cv(x2)); check(c, [&](const vector<double>& z) { Feed f(c, z); Sample<CV> s(n); q->SampleFrom(s, SampleMthd::DEFAULT, NULL); return br::from(s.ValueGet()); }, n, m.f(x2, u), m.cov(x2), "clone with another argument"); check(c, [&](const vector<double>& z) { Feed f(c, z); Sample<CV> s(n); p->SampleFrom(s, SampleMthd::DEFAULT, NULL); return br::from(s.ValueGet()); }, n, mu, S, "original after its clone changed");
}

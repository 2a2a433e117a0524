// C23: a Uniform density always describes its current box
#include "mc_main.h"
#include "kfworld.h"
#include <pdf/uniform.h>
using namespace kw; typedef ColumnVector CV;
// centers and widths that are sums of powers of two: the bounds are exact
static Mat center(int n, int k) { Mat m(n, 1); for (int i = 0; i < n; i++) { static const double C[] = {0, 1.5, -2, 100.25, -0.125, 7}; m(i) = k >= 7 ? 0 : k == 6 ? -2 : C[(i * 2 + k) % 6]; } return m; }
static Mat width(int n, int k) { Mat m(n, 1); for (int i = 0; i < n; i++) { static const double W[] = {1, 0.25, 3, 8, 0.0625, 64.5}; m(i) = k == 6 ? 0.5 : k == 7 ? std::ldexp(1.0L, -24) : k == 8 ? std::ldexp(1.0L, 30 - 8 * (i % 3)) : W[(i + k) % 6]; } return m; }
struct Box { Mat c, w; R lo(int i) const { return c(i) - w(i) / 2; } R hi(int i) const { return c(i) + w(i) / 2; } double scale() const { double s = 0; for (int i = 0; i < c.r; i++) s = std::fmax(s, (double)(std::fabs(c(i)) + w(i))); return s; } R vol() const { R v = 1; for (R x : w.a) v *= x; return v; } };
static void look(Ctx& c, const Uniform& u, const Box& b, const char* who)
{
  int n = b.c.r; c.eq(u.DimensionGet(), n, "dimension"); br::same(c, br::from(u.CenterGet()), b.c, fmt("%s: center", who).c_str(), 1e-12, b.scale()); br::same(c, br::from(u.WidthGet()), b.w, fmt("%s: width", who).c_str(), 1e-12, b.scale()); double h = (double)(1 / b.vol());
  // all points of the grid {below, lower bound, inside, upper bound, above} in every coordinate (bounds belong to the box)
  static const int B[] = {5, 25, 125, 625}; int tot = n <= 4 ? B[n - 1] : 5 * n; for (int t = 0; t < tot; t++) {
    Mat x(n, 1); bool in = true; int q = t; for (int i = 0; i < n; i++) { int k = n <= 4 ? q % 5 : (i == t / 5 ? t % 5 : 2); q /= 5; R W = b.w(i); x(i) = k == 0 ? b.lo(i) - W / 4 : k == 1 ? b.lo(i) : k == 2 ? b.lo(i) + W * 0.375L : k == 3 ? b.hi(i) : b.hi(i) + W / 4; if (k == 0 || k == 4) in = false; }
    double g = (double)u.ProbabilityGet(br::cv(x)), want = in ? h : 0; c.checks++; if (!(std::fabs(g - want) <= 1e-12 * want)) c.fail(fmt("%s: density at %s is %.15g, expected %.15g", who, ref::str(x).c_str(), g, want));
  }
  mc::H hh; ref::hash(hh, b.c); ref::hash(hh, b.w); c.state(hh);
}
static void draws(Ctx& c, const Uniform& u, const Box& b, const char* who)
{
  int n = b.c.r; static const double A[] = {0, 0.25, 0.875, 0.5, 0.99999999};
  for (int num : {-1, 0, 1, 2, 3, 5, 8}) for (int t = 0; t < 5; t++) {
    size_t pos = 0; mc::rng.uni = [&]() { double v = A[(t + pos * 3 + pos / 5) % 5]; pos++; return v; }; vector<Sample<CV>> l; bool ok; if (num < 0) { Sample<CV> s(n); ok = u.SampleFrom(s); l.push_back(s); } else { if (num == 2) l.resize(4); ok = u.SampleFrom(l, (unsigned)num); } mc::rng.uni = nullptr; int cnt = num < 0 ? 1 : num;
    c.ok(ok, "status of a draw"); c.eq((long)l.size(), cnt, "number of draws"); c.eq((long)pos, (long)cnt * n, "answers used"); size_t p = 0;
    for (int i = 0; i < cnt; i++) { Mat x(n, 1); for (int j = 0; j < n; j++, p++) x(j) = b.lo(j) + (R)A[(t + p * 3 + p / 5) % 5] * b.w(j); br::same(c, br::from(l[i].ValueGet()), x, fmt("%s: draw %d", who, i + 1).c_str(), 1e-12, b.scale()); c.ok((double)u.ProbabilityGet(l[i].ValueGet()) > 0, "draw outside of the box"); }
  }
  for (SampleMthd m : {SampleMthd::BOXMULLER, SampleMthd::CHOLESKY, SampleMthd::RIPLEY}) { Sample<CV> s(n); for (int i = 1; i <= n; i++) s.ValueGet()(i) = 42; c.ok(!u.SampleFrom(s, m), "unsupported method reported success"); for (int i = 1; i <= n; i++) c.ok(s.ValueGet()(i) == 42, "sample changed"); }
}
SCENARIO(boxes, 4) { int n = 1 + c.choose(8, "n"), k = c.choose(8, "center"), w = c.choose(9, "width"), how = c.choose(3, "constructed"); Box b{center(n, k), width(n, w)}; c.act("box"); std::unique_ptr<Uniform> u(how == 0 ? new Uniform(br::cv(b.c), br::cv(b.w)) : how == 1 ? new Uniform(n) : new Uniform()); if (how) u->UniformSet(br::cv(b.c), br::cv(b.w)); look(c, *u, b, "uniform"); draws(c, *u, b, "uniform"); }
SCENARIO(histories, 8)
{
  int n = 1 + c.choose(3, "n"), how = c.choose(3, "constructed"); Box b{center(n, 1), width(n, 2)}; std::unique_ptr<Uniform> u(how == 0 ? new Uniform(br::cv(b.c), br::cv(b.w)) : how == 1 ? new Uniform(n) : new Uniform()), v; if (how) u->UniformSet(br::cv(b.c), br::cv(b.w)); Box d = b;
  for (int k = 0; k < (c.thorough ? 6 : 4); k++) { int o = c.choose(8, "op"); c.act("op %d", o);
    switch (o) { case 0: b = Box{center(n, k + 2), width(n, k + 3)}; u->UniformSet(br::cv(b.c), br::cv(b.w)); break; case 1: b.c = center(n, k + 3); u->UniformSet(br::cv(b.c), br::cv(b.w)); break; case 2: u->ProbabilityGet(br::cv(b.c)); break; case 3: { Sample<CV> s(n); u->SampleFrom(s); break; }
      case 4: v.reset(u->Clone()); d = b; break; case 5: v.reset(new Uniform(*u)); d = b; break; case 6: if (v) { *u = *v; b = d; } else { Uniform t(br::cv(center(n, 4)), br::cv(width(n, 5))); *u = t; b = Box{center(n, 4), width(n, 5)}; } break; case 7: if (v) { u.swap(v); std::swap(b, d); } break; } }
  look(c, *u, b, "uniform"); if (v) { look(c, *v, d, "copy"); draws(c, *v, d, "copy"); } draws(c, *u, b, "uniform");
}

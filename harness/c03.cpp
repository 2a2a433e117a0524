// C03: discrete conditional probability tables: every cell is independent and addressable
#include "mc_main.h"
#include <pdf/discreteconditionalpdf.h>
#include <memory>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt;

struct Shape { int n; vector<int> dims; int rows() const { int r = 1; for (int d : dims) r *= d; return r; } };
static vector<int> args(const Shape& s, int row) { vector<int> a; for (int d : s.dims) { a.push_back(row % d); row /= d; } return a; }
static Shape shape(Ctx& c, int maxn, int maxargs, int maxd)
{
  Shape s; s.n = 1 + c.choose(maxn, "states"); int na = 1 + c.choose(maxargs, "nargs");
  for (int i = 0; i < na; i++) s.dims.push_back(1 + c.choose(maxd, "dim"));
  return s;
}
typedef vector<double> Tab;
static void readall(Ctx& c, DiscreteConditionalPdf& d, const Shape& s, const Tab& t, const char* who, int style)
{
  c.eq(d.NumStatesGet(), s.n, "number of states"); c.eq(d.NumConditionalArgumentsGet(), s.dims.size(), "number of conditional arguments"); c.eq(d.DimensionGet(), 1, "dimension");
  for (int r0 = 0; r0 < s.rows(); r0++) {
    int r = style == 2 ? s.rows() - 1 - r0 : r0;
    vector<int> a = args(s, r);
    if (style == 1) d.ConditionalArgumentsSet(a);
    else for (size_t k = 0; k < a.size(); k++) { size_t kk = style == 2 ? a.size() - 1 - k : k; d.ConditionalArgumentSet(kk, a[kk]); }
    for (size_t k = 0; k < a.size(); k++) { c.eq(d.ConditionalArgumentGet(k), a[k], "conditional argument"); c.eq(d.ConditionalArgumentsGet()[k], a[k], "conditional arguments"); }
    for (int i = 0; i < s.n; i++) { double p = (double)d.ProbabilityGet(i); c.ok(p == t[r * s.n + i], fmt("%s: cell (state %d, row %d) reads %g, was set to %g", who, i, r, p, t[r * s.n + i])); }
  }
}
static DiscreteConditionalPdf* make(const Shape& s) { vector<int> dd = s.dims; return new DiscreteConditionalPdf(s.n, (int)dd.size(), dd.data()); }
// every shape: fill in one of several orders, then read everything back
SCENARIO(shapes, 8)
{
  Shape s = shape(c, c.thorough ? 5 : 4, c.thorough ? 4 : 3, c.thorough ? 4 : 3);
  std::unique_ptr<DiscreteConditionalPdf> d(make(s)); int N = s.rows() * s.n; Tab t(N);
  int order = c.choose(4, "order");
  auto cell = [&](int k) { return order == 0 ? k : order == 1 ? N - 1 - k : order == 2 ? (k % s.rows()) * s.n + k / s.rows() : (s.rows() - 1 - k % s.rows()) * s.n + s.n - 1 - k / s.rows(); };
  for (int k = 0; k < N; k++) { int x = cell(k); t[x] = (x + 1) / (double)(N + 1); d->ProbabilitySet(t[x], x % s.n, args(s, x / s.n)); c.act("set %d", x); }
  for (int st = 0; st < 3; st++) readall(c, *d, s, t, "after filling", st);
  c.state(mc::H()(s.n)(s.dims)(order));
}
// every short history of writes over every cell, interleaved with copies
SCENARIO(histories, 8)
{
  static const int sh[][4] = {{2, 1, 2, 0}, {2, 2, 2, 2}, {3, 1, 2, 0}, {1, 2, 2, 3}, {2, 2, 1, 3}, {3, 2, 2, 1}};
  int k = c.choose(6, "shape"); Shape s; s.n = sh[k][0]; for (int i = 0; i < sh[k][1]; i++) s.dims.push_back(sh[k][2 + i]);
  std::unique_ptr<DiscreteConditionalPdf> d(make(s)); int N = s.rows() * s.n; Tab t(N, 0.5);
  for (int x = 0; x < N; x++) d->ProbabilitySet(0.5, x % s.n, args(s, x / s.n));
  for (int q = 0; q < (c.thorough ? 3 : 2); q++) {
    int op = c.choose(2 * N + 5, "op");
    if (op < 2 * N) { int x = op / 2; double v = op % 2 ? 1.0 : 0.0; d->ProbabilitySet(v, x % s.n, args(s, x / s.n)); t[x] = v; c.act("set %d=%g", x, v); }
    else {
      auto scribble = [&](DiscreteConditionalPdf& e) { for (int x = 0; x < N; x++) e.ProbabilitySet(0.125, x % s.n, args(s, x / s.n)); };
      vector<int> last = args(s, s.rows() - 1);
      switch (op - 2 * N) {
      case 0: { c.act("copy"); d->ConditionalArgumentsSet(last); std::unique_ptr<DiscreteConditionalPdf> e(new DiscreteConditionalPdf(*d)); scribble(*d); c.ok(e->ConditionalArgumentsGet() == last, "copy lost its conditional arguments"); d = std::move(e); break; }
      case 1: { c.act("clone"); d->ConditionalArgumentsSet(last); std::unique_ptr<DiscreteConditionalPdf> e(d->Clone()); scribble(*d); c.ok(e->ConditionalArgumentsGet() == last, "clone lost its conditional arguments"); d = std::move(e); break; }
      case 2: { c.act("scribble on a copy"); DiscreteConditionalPdf e(*d); scribble(e); break; }
      case 3: { c.act("assign"); Shape o; o.n = 2; o.dims.push_back(3); std::unique_ptr<DiscreteConditionalPdf> e(make(o)); *e = *d; scribble(*d); d = std::move(e); break; }
      case 4: { c.act("sample"); d->ConditionalArgumentsSet(last); double sum = 0; for (int i = 0; i < s.n; i++) sum += t[(s.rows() - 1) * s.n + i]; Sample<int> o; if (sum > 0) d->SampleFrom(o, SampleMthd::DEFAULT, NULL); break; }
      }
    }
    readall(c, *d, s, t, "history", q % 3); c.state(mc::H()(k)(t));
  }
}
// values of every magnitude: neither stored nor read nor drawn values change anything
SCENARIO(magnitudes, 4)
{
  static const double vs[] = {1, 1e-13, 1e-300, 5e-324, 1e-9, 0.5, 0, 3, 1e10, 0.999999999}; Shape s; s.n = 1 + c.choose(4, "states"); int na = 1 + c.choose(4, "nargs"); for (int i = 0; i < na; i++) s.dims.push_back(2 + (i == 1));
  std::unique_ptr<DiscreteConditionalPdf> d(make(s)); int N = s.rows() * s.n, off = c.choose(10, "offset"), stride = 1 + 2 * c.choose(2, "stride"); Tab t(N);
  for (int x = 0; x < N; x++) { t[x] = vs[(x * stride + off) % 10]; d->ProbabilitySet(t[x], x % s.n, args(s, x / s.n)); }
  c.act("filled"); c.state(mc::H()(s.n)(s.dims)(t));
  for (int q = 0; q < 2; q++) {
    readall(c, *d, s, t, "magnitudes", q);
    for (int r = 0; r < s.rows(); r++) { double sum = 0; for (int i = 0; i < s.n; i++) sum += t[r * s.n + i]; if (!(sum > 1e-290)) continue; d->ConditionalArgumentsSet(args(s, r)); mc::rng.uni = []() { return 0.375; }; Sample<int> o; c.ok(d->SampleFrom(o, SampleMthd::DEFAULT, NULL), "draw refused"); c.ok(o.ValueGet() >= 0 && o.ValueGet() < s.n, "drew no state"); c.act("draw from row %d", r); }
    DiscreteConditionalPdf e(*d); readall(c, e, s, t, "copy", 2);
  }
}
// larger tables
SCENARIO(large, 4)
{
  static const int sh[][5] = {{50, 1, 50, 0, 0}, {10, 2, 10, 10, 0}, {7, 3, 5, 3, 4}, {1, 1, 100, 0, 0}, {64, 2, 1, 9, 0}, {5, 3, 1, 1, 17}};
  int k = c.choose(6, "shape"); Shape s; s.n = sh[k][0]; for (int i = 0; i < sh[k][1]; i++) s.dims.push_back(sh[k][2 + i]);
  std::unique_ptr<DiscreteConditionalPdf> d(make(s)); int N = s.rows() * s.n; Tab t(N);
  for (int x = 0; x < N; x++) { t[x] = (x + 1) / (double)(N + 1); d->ProbabilitySet(t[x], x % s.n, args(s, x / s.n)); c.act("set %d", x); }
  readall(c, *d, s, t, "large table", c.choose(3, "style")); c.state(mc::H()(k));
  DiscreteConditionalPdf e(*d); readall(c, e, s, t, "copy of a large table", 0);
}

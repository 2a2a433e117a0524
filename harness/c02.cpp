// C02: discrete sampling: every answer of the random source yields a state of positive probability, and
// states are drawn in proportion to their probability
#include "mc_main.h"
#include "sampling.h"
#include <pdf/discretepdf.h>
#include <pdf/discreteconditionalpdf.h>
#include <memory>
#include <algorithm>
using namespace BFL; using std::vector; using mc::Ctx; using mc::fmt;

static const double LAST = 1.0 - 1.0 / 4294967296.0;   // largest answer of the random source
// the interface common to both kinds of discrete pdf
typedef std::function<bool(Sample<int>&)> One;
typedef std::function<bool(vector<Sample<int>>&, unsigned, SampleMthd)> Many;

static void script(const vector<double>& us) { size_t* i = new size_t(0); mc::rng.uni = [us, i]() { double v = us[*i % us.size()]; ++*i; return v; }; }

static void one_check(Ctx& c, const One& draw, const vector<int>& w, const char* who)
{
  int n = (int)w.size(), M = 0; for (int x : w) M += x;
  vector<int> cnt(n, 0);
  for (int k = 0; k < M; k++) {
    mc::rng.uni = [&]() { return (k + 0.5) / M; };
    Sample<int> s; s.ValueSet(-7); c.ok(draw(s), "sampling refused"); int v = s.ValueGet();
    c.ok(v >= 0 && v < n, fmt("%s: answer %g gives %d, not a state", who, (k + 0.5) / M, v)); cnt[v]++; c.act("u=%g -> %d", (k + 0.5) / M, v);
  }
  for (int i = 0; i < n; i++) c.ok(cnt[i] == w[i], fmt("%s: state %d drawn for %d of %d equally spaced answers, expected %d", who, i, cnt[i], M, w[i]));
  // extreme and boundary answers
  vector<double> edge{0.0, 1e-300, 1.0 / 4294967296.0, LAST};
  for (int k = 1; k < M; k++) { edge.push_back((double)k / M); edge.push_back(std::nextafter((double)k / M, 0)); edge.push_back(std::nextafter((double)k / M, 1)); }
  for (double u : edge) {
    mc::rng.uni = [&]() { return u; };
    Sample<int> s; s.ValueSet(-7); c.ok(draw(s), "sampling refused"); int v = s.ValueGet(); c.act("u=%.17g -> %d", u, v);
    c.ok(v >= 0 && v < n, fmt("%s: answer %.17g gives %d, not a state", who, u, v));
    c.ok(w[v] > 0, fmt("%s: answer %.17g gives state %d, which has probability zero", who, u, v));
  }
}
// all answer tuples of an M-point grid: joint distribution of the drawn list (as a multiset)
static void list_check(Ctx& c, const Many& draw, const vector<int>& w, unsigned num, SampleMthd mth, int M, double tol, const char* who)
{
  int n = (int)w.size(); double W = 0; for (int x : w) W += x;
  std::map<vector<int>, double> got, want;
  long total = 1; for (unsigned i = 0; i < num; i++) total *= M;
  vector<double> us(num); vector<Sample<int>> l;
  for (long t = 0; t < total; t++) {
    long q = t; for (unsigned i = 0; i < num; i++) { us[i] = (q % M + 0.5) / M; q /= M; }
    size_t pos = 0; mc::rng.uni = [&]() { double v = us[pos % num]; pos++; return v; };
    // the caller's list may have any size beforehand
    l.resize((t * 5) % (2 * num + 1));
    c.ok(draw(l, num, mth), "sampling refused"); c.transitions++;
    c.ok(l.size() == num, fmt("%s: asked for %u samples, got %zu", who, num, l.size()));
    vector<int> k(n, 0); for (auto& s : l) { int v = s.ValueGet(); c.ok(v >= 0 && v < n && w[v] > 0, fmt("%s: drew %d", who, v)); k[v]++; }
    got[k] += 1.0 / total;
  }
  // multinomial reference
  vector<int> idx(num, 0);
  for (;;) {
    vector<int> k(n, 0); double p = 1; for (int i : idx) { k[i]++; p *= w[i] / W; }
    if (p > 0) want[k] += p;
    unsigned i = 0; while (i < num && ++idx[i] == n) idx[i++] = 0;
    if (i == num) break;
  }
  for (auto& e : want) { double g = got.count(e.first) ? got[e.first] : 0; c.ok(std::fabs(g - e.second) <= tol, fmt("%s: a list outcome has frequency %.6f over all answer tuples, probability %.6f", who, g, e.second)); }
  for (auto& e : got) c.ok(want.count(e.first), "impossible list drawn");
  // extreme answers
  for (int m = 0; m < (1 << (2 * num)); m++) {
    static const double ex[4] = {0.0, 1.0 / 4294967296.0, 0.5, LAST};
    for (unsigned i = 0; i < num; i++) us[i] = ex[(m >> (2 * i)) & 3];
    size_t pos = 0; mc::rng.uni = [&]() { double v = us[pos % num]; pos++; return v; };
    c.ok(draw(l, num, mth), "sampling refused"); c.transitions++; c.ok(l.size() == num, "list size");
    for (auto& s : l) { int v = s.ValueGet(); c.ok(v >= 0 && v < n, fmt("%s: extreme answers give %d, not a state", who, v)); c.ok(w[v] > 0, fmt("%s: extreme answers give state %d of probability zero", who, v)); }
  }
}
static vector<int> weights(Ctx& c, int n, int M)   // every composition of M into n non-negative parts
{
  vector<int> w(n); int left = M;
  for (int i = 0; i < n - 1; i++) { w[i] = c.choose(left + 1, "w"); left -= w[i]; }
  w[n - 1] = left; return w;
}
static void fill(DiscretePdf& d, const vector<int>& w) { vector<Probability> p; for (int x : w) p.push_back(Probability((double)x)); d.ProbabilitiesSet(p); }

SCENARIO(single_all_weights, 4)
{
  int n = 1 + c.choose(c.thorough ? 5 : 4, "n"); vector<int> w = weights(c, n, c.thorough ? 10 : 8);
  DiscretePdf d(n); fill(d, w); c.state(mc::H()(w));
  one_check(c, [&](Sample<int>& s) { return d.SampleFrom(s); }, w, "single draw");
  // lists of many samples drawn with the default method: one independent draw per element
  unsigned num = 40; vector<double> us; for (unsigned i = 0; i < num; i++) us.push_back((i % 8 + 0.5) / 8);
  size_t pos = 0; mc::rng.uni = [&]() { return us[pos++ % num]; };
  vector<Sample<int>> l; c.ok(d.SampleFrom(l, num), "refused"); c.eq(l.size(), num, "list size");
  if (!c.thorough) { vector<int> cnt(n, 0); for (auto& s : l) cnt[s.ValueGet()]++; for (int i = 0; i < n; i++) c.eq(cnt[i], 5 * w[i], "occurrences in a list of 40"); }
}
SCENARIO(lists, 8)
{
  int n = 1 + c.choose(3, "n"); vector<int> w = weights(c, n, 4);
  int m = c.choose(2, "method"); unsigned num = 1 + c.choose(3, "num");
  SampleMthd mth = m ? SampleMthd::RIPLEY : SampleMthd::DEFAULT;
  DiscretePdf d(n); fill(d, w); c.state(mc::H()(w)(m)(num));
  { vector<Sample<int>> l(3); mc::rng.uni = []() { return 0.25; }; c.ok(d.SampleFrom(l, 0, mth), "drawing an empty list refused"); c.eq(l.size(), 0, "size of an empty list"); }
  int M = num == 1 ? 64 : num == 2 ? (c.thorough ? 128 : 64) : (c.thorough ? 36 : 20);
  list_check(c, [&](vector<Sample<int>>& l, unsigned k, SampleMthd t) { return d.SampleFrom(l, k, t); }, w, num, mth, M, m && num > 1 ? 2.5 / M : 1e-9, m ? "ordered-uniform list" : "list");
  c.act("list n=%d num=%u method=%d", n, num, m);
}
// large ordered-uniform lists: a scripted sequence of answers whose ordered uniforms are known
SCENARIO(ripley_large, 4)
{
  static const unsigned nums[] = {1, 2, 3, 5, 10, 64, 100, 1000};
  unsigned num = nums[c.choose(8, "num")]; int n = 2 + c.choose(4, "n"); int z = c.choose(n + 1, "zero");
  vector<int> w(n, 2); if (z < n) w[z] = 0; double W = 0; for (int x : w) W += x;
  DiscretePdf d(n); fill(d, w); c.state(mc::H()(w)(num));
  int a = c.choose(5, "answer"); static const double as[] = {0.0, 0.25, 0.5, 0.75, LAST};
  mc::rng.uni = [&]() { return as[a]; };
  vector<Sample<int>> l; c.ok(d.SampleFrom(l, num, SampleMthd::RIPLEY), "refused"); c.eq(l.size(), num, "list size"); c.act("ripley num=%u n=%d answer=%g", num, n, as[a]);
  // i.i.d. uniforms obtained from equal answers a: u_(num) = a^(1/num), u_(i) = u_(i+1) a^(1/i); the drawn list must be the
  // quantiles of these order statistics (as a multiset), up to elements on a state boundary
  vector<double> u(num); u[num - 1] = std::pow(as[a], 1.0 / num); for (int i = (int)num - 2; i >= 0; i--) u[i] = u[i + 1] * std::pow(as[a], 1.0 / (i + 1));
  vector<int> lo(n, 0), hi(n, 0), got(n, 0);
  for (auto& s : l) { int v = s.ValueGet(); c.ok(v >= 0 && v < n && w[v] > 0, fmt("drew %d", v)); got[v]++; }
  for (unsigned i = 0; i < num; i++) { double cum = 0; for (int s = 0; s < n; s++) { double b = cum, e = cum + w[s] / W; if (u[i] > b - 1e-9 && u[i] < e + 1e-9) hi[s]++; if (u[i] > b + 1e-9 && u[i] < e - 1e-9) lo[s]++; cum = e; } }
  if (as[a] > 0) for (int s = 0; s < n; s++) c.ok(got[s] >= lo[s] && got[s] <= hi[s], fmt("state %d drawn %d times, expected between %d and %d", s, got[s], lo[s], hi[s]));
}
// sampling follows the current probabilities after any short history of changes
SCENARIO(history, 8)
{
  int n = 2 + c.choose(2, "n"); vector<int> w(n, 0); int M = 8;
  DiscretePdf d(n);
  vector<vector<int>> pats = n == 2 ? vector<vector<int>>{{8, 0}, {0, 8}, {2, 6}, {4, 4}} : vector<vector<int>>{{8, 0, 0}, {0, 8, 0}, {0, 0, 8}, {2, 2, 4}, {4, 0, 4}};
  w = pats[c.choose((int)pats.size(), "start")]; fill(d, w);
  for (int k = 0; k < (c.thorough ? 3 : 2); k++) {
    int op = c.choose((int)pats.size() + 2 * n + 1, "op");
    if (op < (int)pats.size()) { w = pats[op]; fill(d, w); c.act("setall #%d", op); }
    else if (op < (int)pats.size() + 2 * n) {
      int s = (op - (int)pats.size()) / 2, a = (op - (int)pats.size()) % 2 ? 8 : 0;
      c.act("set(%d,%d/8)", s, a); d.ProbabilitySet(s, a / 8.0);
      // adopt what the pdf now reports (C01 decides whether that is right); only usable when it is on the grid
      bool grid = true; for (int i = 0; i < n; i++) { double x = (double)d.ProbabilityGet(i) * M; if (std::fabs(x - std::floor(x + 0.5)) > 1e-9) grid = false; w[i] = (int)std::floor(x + 0.5); }
      if (!grid) return;
    } else { c.act("failed bulk set"); vector<Probability> z(n, Probability(0.0)); d.ProbabilitiesSet(z); }
    c.state(mc::H()(w));
    one_check(c, [&](Sample<int>& s) { return d.SampleFrom(s); }, w, "after history");
    list_check(c, [&](vector<Sample<int>>& l, unsigned q, SampleMthd t) { return d.SampleFrom(l, q, t); }, w, 2, SampleMthd::RIPLEY, 16, 0.13, "ripley after history");
    DiscretePdf e(d), f(n); f = d; std::unique_ptr<DiscretePdf> g(d.Clone());
    one_check(c, [&](Sample<int>& s) { return e.SampleFrom(s); }, w, "copy"); one_check(c, [&](Sample<int>& s) { return f.SampleFrom(s); }, w, "assigned"); one_check(c, [&](Sample<int>& s) { return g->SampleFrom(s); }, w, "clone");
  }
}
// many states
SCENARIO(sizes, 4)
{
  static const int sz[] = {1, 2, 5, 8, 9, 16, 17, 33, 64, 100, 256, 300};
  int n = sz[c.choose(12, "n")], pat = c.choose(4, "pattern"); vector<int> w(n);
  for (int i = 0; i < n; i++) w[i] = pat == 0 ? 1 : pat == 1 ? (i % 2 ? 0 : 3) : pat == 2 ? (i == n - 1 ? 5 : 0) : (i * 3) % 4;
  int s = 0; for (int x : w) s += x; if (!s) w[0] = 1;
  DiscretePdf d(n); fill(d, w); c.state(mc::H()(w));
  one_check(c, [&](Sample<int>& q) { return d.SampleFrom(q); }, w, "single draw");
  list_check(c, [&](vector<Sample<int>>& l, unsigned k, SampleMthd t) { return d.SampleFrom(l, k, t); }, w, 1, SampleMthd::RIPLEY, 4 * (s ? s : 1), 1e-9, "ripley 1");
}
// many states, weights of every magnitude: exact share of the answers for each state, also for copies
SCENARIO(shares, 8)
{
  static const int sz[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 33, 64, 100, 256};
  int n = sz[c.choose(c.thorough ? 18 : 16, "n")]; vector<double> w = so::pattern(n, c.choose(so::PATTERNS, "pattern")); int how = c.choose(5, "object");
  DiscretePdf d(n); vector<Probability> p(w.begin(), w.end()); d.ProbabilitiesSet(p);
  DiscretePdf e(d), f(n + 1); f = d; std::unique_ptr<DiscretePdf> g(d.Clone());
  if (how == 4) { c.act("copy changed"); vector<Probability> o(n, Probability(1.0)); e.ProbabilitiesSet(o); f.ProbabilitySet(0, 1.0); }
  DiscretePdf* x = how == 1 ? &e : how == 2 ? &f : how == 3 ? g.get() : &d;
  c.state(mc::H()(w)(how)); c.act("n=%d object %d", n, how);
  so::measure_check(c, [&]() { Sample<int> s; s.ValueSet(-7); return x->SampleFrom(s) ? s.ValueGet() : -9; }, w, "single draw");
  so::measure_check(c, [&]() { vector<Sample<int>> l; return x->SampleFrom(l, 1, SampleMthd::RIPLEY) && l.size() == 1 ? l[0].ValueGet() : -9; }, w, "ordered-uniform draw");
  so::measure_check(c, [&]() { vector<Sample<int>> l(3); return x->SampleFrom(l, 1) && l.size() == 1 ? l[0].ValueGet() : -9; }, w, "list draw");
}
// rows of tables with up to four arguments: the row of the current arguments, whatever the other rows are
SCENARIO(conditional_shares, 8)
{
  int n = 1 + c.choose(4, "n"), na = 1 + c.choose(4, "nargs"); static const int dimsets[3][4] = {{2, 3, 2, 2}, {3, 1, 4, 2}, {1, 2, 3, 3}};
  int ds = c.choose(3, "dims"); int dims[4]; int rows = 1; for (int i = 0; i < na; i++) { dims[i] = dimsets[ds][i]; rows *= dims[i]; }
  DiscreteConditionalPdf d(n, na, dims);
  auto args = [&](int r) { vector<int> a; for (int i = 0; i < na; i++) { a.push_back(r % dims[i]); r /= dims[i]; } return a; };
  auto rw = [&](int r) { vector<double> w = so::pattern(n, r % so::PATTERNS); if (r % 3 == 1) std::rotate(w.begin(), w.begin() + r % n, w.end()); return w; };
  for (int r = 0; r < rows; r++) { vector<double> w = rw(r); for (int i = 0; i < n; i++) d.ProbabilitySet(w[i], i, args(r)); }
  DiscreteConditionalPdf e(d); std::unique_ptr<DiscreteConditionalPdf> f(d.Clone());
  int how = c.choose(3, "object"); DiscreteConditionalPdf* x = how == 0 ? &d : how == 1 ? &e : f.get();
  for (int r = 0; r < rows; r++) {
    if (r % 2) x->ConditionalArgumentsSet(args(r)); else for (int i = 0; i < na; i++) x->ConditionalArgumentSet(i, args(r)[i]);
    vector<double> w = rw(r); c.act("row %d", r); c.state(mc::H()(w)(r)(na));
    so::measure_check(c, [&]() { Sample<int> s; s.ValueSet(-7); return x->SampleFrom(s, SampleMthd::DEFAULT, NULL) ? s.ValueGet() : -9; }, w, "conditional draw");
    for (int i = 0; i < n; i++) c.ok((double)x->ProbabilityGet(i) == w[i], "drawing changed the table");
  }
}
// conditional table: the row selected by the current conditional arguments, rows need not be normalised
SCENARIO(conditional, 8)
{
  int n = 1 + c.choose(3, "n"); int na = 1 + c.choose(2, "nargs"); int dims[2] = {2, 3};
  DiscreteConditionalPdf d(n, na, dims);
  vector<int> w = weights(c, n, 4); double scale = c.choose(2, "scale") ? 0.125 : 0.25;
  int rows = na == 1 ? 2 : 6; int row = c.choose(rows, "row");
  for (int r = 0; r < rows; r++) { vector<int> ca; ca.push_back(r % 2); if (na == 2) ca.push_back(r / 2); for (int i = 0; i < n; i++) d.ProbabilitySet(r == row ? w[i] * scale : (double)((i + r) % 3 + 1), i, ca); }
  d.ConditionalArgumentSet(0, row % 2); if (na == 2) d.ConditionalArgumentSet(1, row / 2);
  c.state(mc::H()(w)(row)(na)(scale));
  One o = [&](Sample<int>& s) { return d.SampleFrom(s, SampleMthd::DEFAULT, NULL); };
  one_check(c, o, w, "conditional draw");
  list_check(c, [&](vector<Sample<int>>& l, unsigned k, SampleMthd t) { return d.SampleFrom(l, k, t, NULL); }, w, 2, SampleMthd::DEFAULT, 8, 1e-9, "conditional list");
  DiscreteConditionalPdf e(d); std::unique_ptr<DiscreteConditionalPdf> f(d.Clone());
  one_check(c, [&](Sample<int>& s) { return e.SampleFrom(s, SampleMthd::DEFAULT, NULL); }, w, "copy of conditional");
  one_check(c, [&](Sample<int>& s) { return f->SampleFrom(s, SampleMthd::DEFAULT, NULL); }, w, "clone of conditional");
  // drawing must not disturb another row
  int other = (row + 1) % rows; d.ConditionalArgumentSet(0, other % 2); if (na == 2) d.ConditionalArgumentSet(1, other / 2);
  vector<int> w2(n); for (int i = 0; i < n; i++) w2[i] = (i + other) % 3 + 1;
  one_check(c, o, w2, "second row");
}

// C26: the random source turns engine words into uniform and normal answers
// The library's rng.cpp is compiled with an engine whose words are chosen here.
#include <boost/config.hpp>
#define VERIF_NO_RNG_INTERPOSITION
#include "mc_main.h"
#include "fake/boost/random/mersenne_twister.hpp"
#include <wrappers/rng/rng.cpp>
#include <algorithm>
namespace mce { std::vector<uint32_t> words; size_t pos; }
using mc::Ctx; using mc::fmt; using std::vector;
static double call(Ctx& c, int op, double a, double b) { switch (op) { case 0: return BFL::runif(); case 1: return BFL::runif(a, b); case 2: return BFL::rnorm(a, b); default: c.fail("bad operation"); return 0; } }
static void feed(const vector<uint32_t>& w) { mce::words = w; mce::pos = 0; }
static const uint32_t E[] = {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x12345678u, 0x9abcdef1u, 0x0000ff00u, 0xff000000u, 0x000000ffu, 0x55555555u, 0xaaaaaa01u, 0xdeadbeefu};
static const double MU[] = {0, 1, -3.5, 1e6, 1e-8}, SG[] = {1, 0, 2.5, 1e-6, 1e4, 1e-13, 1e12}, LO[] = {0, -1, 5, -1e6, 1e-9}, WI[] = {1, 2, 0.125, 1e6, 1e-9};
static vector<uint32_t> tail(Ctx& c, int n, const char* what) { vector<uint32_t> w; for (int i = 0; i < n; i++) w.push_back(E[c.choose(c.thorough || i < 2 ? 14 : 4, what)]); while ((int)w.size() < 40) w.push_back(0x3c6ef372u * (unsigned)(w.size() + 1) + 77u); return w; }
// uniform answers: in [0,1); answers with bounds are the affine image of those without, in [min,max)
SCENARIO(uniform, 4)
{
  vector<uint32_t> w = tail(c, 2, "word"); int k = c.choose(25, "bounds"); double a = LO[k / 5], b = a + WI[k % 5]; c.act("words %x %x", w[0], w[1]); feed(w); double u = call(c, 0, 0, 0); size_t n = mce::pos; c.ok(n >= 1, "no engine word used"); c.ok(u >= 0 && u < 1, fmt("answer %.17g outside [0,1)", u)); feed(w); double v = call(c, 1, a, b); c.ok(v >= a && v < b, fmt("answer %.17g outside [%g,%g)", v, a, b)); double s = std::fabs(a) + std::fabs(b); volatile double im = a + u * (b - a); if (im < b) c.ok(std::fabs(v - im) <= 1e-9 * (b - a) + 1e-15 * s, fmt("answer %.17g for the standard answer %.17g between %g and %g", v, u, a, b)); mc::H h; h((long)w[0]); h((long)w[1]); h(k); c.state(h);
}
// normal answers: shifted by the mean and scaled by the standard deviation
SCENARIO(normal, 8)
{
  vector<uint32_t> w = tail(c, 3, "word"); int k = c.choose(35, "parameters"); double mu = MU[k / 7], sg = SG[k % 7]; c.act("words %x %x %x", w[0], w[1], w[2]); feed(w); double z; try { z = call(c, 2, 0, 1); } catch (mce::Exhausted&) { return; } size_t n = mce::pos; c.ok(n >= 1, "no engine word used"); c.ok(std::isfinite(z), "answer not finite"); feed(w); double y = call(c, 2, mu, sg); c.eq((long)mce::pos, (long)n, "engine words used"); c.ok(std::fabs(y - (mu + sg * z)) <= 1e-12 * (std::fabs(mu) + std::fabs(sg * z)), fmt("answer %.17g for mean %g, standard deviation %g, standard answer %.17g", y, mu, sg, z)); mc::H h; for (int i = 0; i < 3; i++) h((long)w[i]); h(k); c.state(h);
}
// histories: an answer depends on nothing but its own words and parameters
SCENARIO(histories, 8)
{
  int n = c.thorough ? 5 : 4; vector<int> op(n), wi(n); for (int k = 0; k < n; k++) { op[k] = c.choose(7, "op"); wi[k] = c.choose(3, "word"); } vector<vector<uint32_t>> blk(n);
  auto one = [&](int k) { switch (op[k]) { case 0: return call(c, 0, 0, 0); case 1: return call(c, 1, -2.0 - k, 3.0 + k); case 2: return call(c, 2, 0, 1); case 3: return call(c, 2, 1.5 * k, 0.5 + k); case 4: return call(c, 1, 0.25, 0.25 + std::ldexp(1.0, -30)); case 5: return call(c, 1, -1e-7, 1e-7); default: return call(c, 2, 1e-3, 1e-7); } };
  vector<double> alone(n); for (int k = 0; k < n; k++) { vector<uint32_t> w; w.push_back(E[4 + wi[k] * 3]); for (int i = 1; i < 60; i++) w.push_back(0x3c6ef372u * (unsigned)(i + 7 * k + wi[k] + 1) + 77u); feed(w); try { alone[k] = one(k); } catch (mce::Exhausted&) { return; } blk[k].assign(w.begin(), w.begin() + mce::pos); }
  vector<uint32_t> all; for (auto& b : blk) all.insert(all.end(), b.begin(), b.end()); feed(all); for (int k = 0; k < n; k++) { c.act("op %d", op[k]); double v = 0; try { v = one(k); } catch (mce::Exhausted&) { c.fail("more engine words used than by the same call alone"); } c.ok(v == alone[k], fmt("call %d: answer %.17g, alone %.17g", k, v, alone[k])); } c.eq((long)mce::pos, (long)all.size(), "engine words used"); mc::H h; for (int k = 0; k < n; k++) { h(op[k]); h(wi[k]); } c.state(h);
}
// distributions: the image of equidistributed engine words (calls needing more than the enumerated words bound the error)
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
SCENARIO(uniform_distribution, 2)
{
  int which = c.choose(2, "form"); c.choose(1, ""); const int N = 1 << 16; vector<double> r; long und = 0; for (int i = 0; i < N; i++) { uint32_t w = ((uint32_t)i << 16) | (uint32_t)((i * 40503u) & 0xffff); bool more = false; try { feed({w}); r.push_back(which ? (call(c, 1, -4, 12) + 4) / 16 : call(c, 0, 0, 0)); } catch (mce::Exhausted&) { more = true; } if (more) for (int j = 0; j < 16; j++) { try { feed({w, ((uint32_t)j << 28) | 0x7654321u}); r.push_back(which ? (call(c, 1, -4, 12) + 4) / 16 : call(c, 0, 0, 0)); } catch (mce::Exhausted&) { und++; } } }
  c.act("%zu answers", r.size()); c.transitions += r.size(); c.ok(!r.empty() && und * 20 < (long)r.size(), "answers need more than two engine words"); std::sort(r.begin(), r.end()); double e = 0; for (size_t i = 0; i < r.size(); i++) e = std::max(e, std::fabs(r[i] - (i + 0.5) / r.size())); c.ok(e < 0.001 + (double)und / r.size(), fmt("uniform answers deviate from the uniform distribution by %g", e)); mc::H h; h(which); c.state(h);
}
SCENARIO(normal_distribution, 2)
{
  int which = c.choose(2, "form"); c.choose(1, ""); vector<double> r; long und = 0; auto dr = [&]() { return which ? (call(c, 2, -7, 3) + 7) / 3 : call(c, 2, 0, 1); };
  for (uint32_t lo = 0; lo < 256; lo++) for (uint32_t hi = 0; hi < 64; hi++) for (uint32_t w2 = 0; w2 < 32; w2++) { feed({(hi << 26) | 0x2345600u | lo, (w2 << 27) | ((lo * 37 + hi * 11) & 255) | 0x4433200u}); try { r.push_back(dr()); } catch (mce::Exhausted&) { und++; } }
  double tot = r.size() + und, ue = und / tot; c.act("%zu answers, %ld need more words", r.size(), und); c.transitions += r.size(); c.ok(!r.empty(), "answers need more than two engine words"); if (ue > 0.2) return;
  for (double x = -3; x <= 3.01; x += 0.25) { long k = 0; for (double v : r) k += v <= x; double F = k / tot; c.ok(F <= Phi(x) + 0.01 && F + ue >= Phi(x) - 0.01, fmt("distribution function at %g between %g and %g, expected %g", x, F, F + ue, Phi(x))); } mc::H h; h(which); c.state(h);
}

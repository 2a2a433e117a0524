// C24: samples, weighted samples and probabilities are values
#include "mc_main.h"
#include "kfworld.h"
#include <sample/weightedsample.h>
#include <bfl_constants.h>
#include <map>
#include <list>
using namespace kw; typedef ColumnVector CV;
template <class T> struct V; 
template <> struct V<CV> { static CV mk(int k) { int n = 1 + k % 3; CV v(n); for (int i = 1; i <= n; i++) v(i) = k * 1.5 - i; return v; } static bool eq(const CV& a, const CV& b) { return br::from(a).a == br::from(b).a; } static void poke(CV& v) { if (v.rows()) v((int)v.rows()) = -77; } };
template <class N> struct VN { static N mk(int k) { return (N)(k * 3 + 1); } static bool eq(N a, N b) { return a == b; } static void poke(N& v) { v = 77; } };
template <> struct V<double> : VN<double> {}; template <> struct V<int> : VN<int> {}; template <> struct V<unsigned> : VN<unsigned> {};
template <> struct V<std::vector<double>> { static std::vector<double> mk(int k) { return std::vector<double>(1 + k % 3, k * 0.5); } static bool eq(const std::vector<double>& a, const std::vector<double>& b) { return a == b; } static void poke(std::vector<double>& v) { if (!v.empty()) v.back() = -77; } };
// three objects, every history of operations on them
template <class T> static void history(Ctx& c)
{
  typedef WeightedSample<T> W; typedef Sample<T> S; const int N = 3; vector<std::unique_ptr<W>> o(N); struct M { T v; double w; }; vector<M> m(N); for (int i = 0; i < N; i++) { o[i].reset(new W(1)); m[i].v = V<T>::mk(i); m[i].w = i * 0.5; o[i]->ValueSet(m[i].v); o[i]->WeightSet(m[i].w); } S base(1); T bv = V<T>::mk(9); base.ValueSet(bv);
  for (int k = 0; k < (c.thorough ? 5 : 4); k++) {
    int op = c.choose(11, "op"); int i = k % 2, j = (i + 1) % N; c.act("op %d on %d", op, i);
    switch (op) {
      case 0: m[i].v = V<T>::mk(10 + k); o[i]->ValueSet(m[i].v); break; case 1: m[i].w = 0.25 * (k + 1); o[i]->WeightSet(m[i].w); break; case 2: *o[i] = *o[j]; m[i] = m[j]; break; case 3: *o[i] = base; m[i].v = bv; m[i].w = 1; break; case 4: o[i].reset(new W(*o[j])); m[i] = m[j]; break;
      case 5: V<T>::poke(o[i]->ValueGet()); V<T>::poke(m[i].v); break; case 6: base = *o[j]; bv = m[j].v; break; case 7: *o[i] = *o[i]; break; case 8: { S& b = *o[i]; b = *o[j]; m[i].v = m[j].v; break; } case 9: std::swap(*o[i], *o[2]); std::swap(m[i], m[2]); break; case 10: { vector<W> l(2, *o[j]); l.insert(l.begin(), *o[i]); l.resize(7); l[2].WeightSet(9); l.erase(l.begin() + 1); m[i] = m[i]; *o[2] = l[0]; m[2] = m[i]; break; }
    }
    for (int q = 0; q < N; q++) { const W& r = *o[q]; c.ok(V<T>::eq(r.ValueGet(), m[q].v), fmt("value of sample %d", q)); c.ok(r.WeightGet() == m[q].w, fmt("weight of sample %d is %g, expected %g", q, r.WeightGet(), m[q].w)); c.ok(V<T>::eq(o[q]->ValueGet(), m[q].v), "value"); } const S& cb = base; c.ok(V<T>::eq(cb.ValueGet(), bv), "value of the plain sample"); { S cp(base); c.ok(V<T>::eq(cp.ValueGet(), bv), "copy of the plain sample"); }
    mc::H h; h(k); for (auto& x : m) h((long)(x.w * 64)); h(op); c.state(h);
  }
}
SCENARIO(vectors, 4) { history<CV>(c); }
SCENARIO(reals, 4) { history<double>(c); }
SCENARIO(integers, 4) { history<int>(c); }
SCENARIO(naturals, 4) { history<unsigned>(c); }
SCENARIO(others, 4) { history<std::vector<double>>(c); }
SCENARIO(dimensions, 1) { int n = c.choose(7, "n"), k = c.choose(7, "new"); c.act("dimension"); Sample<CV> s(n); c.eq(s.DimensionGet(), n, "dimension"); WeightedSample<CV> w(n); c.eq(w.DimensionGet(), n, "dimension of a weighted sample"); s.DimensionSet(k); c.eq(s.DimensionGet(), k, "dimension set"); c.eq((long)s.ValueGet().rows(), k, "size of the value"); Sample<double> d; c.eq(d.DimensionGet(), 1, "dimension of a real"); Sample<int> i; c.eq(i.DimensionGet(), 1, "dimension of an integer"); mc::H h; h(n); h(k); c.state(h); }
SCENARIO(streams, 1) { int k = c.choose(50, "k"); c.act("stream"); Sample<int> a, b; a.ValueSet(k * 7 - 100); std::stringstream s; s << a; s >> b; c.eq(b.ValueGet(), k * 7 - 100, "value read back"); Sample<double> d, e; d.ValueSet(k * 0.25 - 3); std::stringstream t; t << d; t >> e; c.ok(e.ValueGet() == k * 0.25 - 3, "real read back"); mc::H h; h(k); c.state(h); }
// probabilities: products and quotients of all pairs and triples
static const double P[] = {0, 1, 0.5, 0.25, 1e-300, 1e-10, 0.1, 3, 1e10, 0.999999};
SCENARIO(probabilities, 2)
{
  double a = P[c.choose(10)], b = P[c.choose(10)], d = P[c.choose(10)]; c.act("%g %g %g", a, b, d); Probability A(a), B(b), D(d), Z; Z = A; const Probability CA(a); c.ok((double)A == a && CA.getValue() == a && A.getValue() == a && (double)Z == a, "value"); c.ok((double)(A * B) == a * b, "product"); c.ok((double)A == a && (double)B == b, "operands changed"); if (b > 0 && std::isfinite(a / b)) c.ok((double)(A / B) == a / b, "quotient"); c.ok((double)(A * B * D) == a * b * d, "triple product"); Probability Q(A); Q.getValue() = d; c.ok((double)Q == d && (double)A == a, "write through the reference"); if (b > 0 && std::isfinite(a * d / b)) c.ok((double)(A * D / B) == a * d / b, "product and quotient"); mc::H h; h((long)(a * 1e6)); h((long)(b * 1e6)); h((long)(d * 1e6)); c.state(h);
}

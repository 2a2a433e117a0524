// Boring reference arithmetic (long double, textbook algorithms) used by the oracles.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cmath>
#include <cstdlib>
#include <string>
#include <vector>
#include "mc.h"
namespace ref {
typedef long double R;
struct Mat {
  int r, c; std::vector<R> a;
  Mat(int r_ = 0, int c_ = 0, R v = 0) : r(r_), c(c_), a(r_ * c_, v) {}
  R& operator()(int i, int j) { return a[i * c + j]; }          // 0-based
  R operator()(int i, int j) const { return a[i * c + j]; }
  R& operator()(int i) { return a[i]; }
  R operator()(int i) const { return a[i]; }
};
inline Mat I(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
inline Mat operator*(const Mat& x, const Mat& y)
{ Mat m(x.r, y.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { R s = 0; for (int k = 0; k < x.c; k++) s += x(i, k) * y(k, j); m(i, j) = s; } return m; }
inline Mat operator+(const Mat& x, const Mat& y) { Mat m(x); for (size_t i = 0; i < m.a.size(); i++) m.a[i] += y.a[i]; return m; }
inline Mat operator-(const Mat& x, const Mat& y) { Mat m(x); for (size_t i = 0; i < m.a.size(); i++) m.a[i] -= y.a[i]; return m; }
inline Mat operator*(const Mat& x, R s) { Mat m(x); for (R& v : m.a) v *= s; return m; }
inline Mat T(const Mat& x) { Mat m(x.c, x.r); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) m(j, i) = x(i, j); return m; }
inline R det(Mat m)
{
  R d = 1; int n = m.r;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k; i < n; i++) if (std::fabs((double)m(i, k)) > std::fabs((double)m(p, k))) p = i;
    if (m(p, k) == 0) return 0;
    if (p != k) { d = -d; for (int j = 0; j < n; j++) std::swap(m(p, j), m(k, j)); }
    d *= m(k, k);
    for (int i = k + 1; i < n; i++) { R f = m(i, k) / m(k, k); for (int j = k; j < n; j++) m(i, j) -= f * m(k, j); }
  }
  return d;
}
inline Mat inv(Mat m)
{
  int n = m.r; Mat b = I(n);
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k; i < n; i++) if (std::fabs((double)m(i, k)) > std::fabs((double)m(p, k))) p = i;
    if (m(p, k) == 0) { fprintf(stderr, "ref::inv: singular\n"); std::_Exit(90); }
    for (int j = 0; j < n; j++) { std::swap(m(p, j), m(k, j)); std::swap(b(p, j), b(k, j)); }
    R f = 1 / m(k, k); for (int j = 0; j < n; j++) { m(k, j) *= f; b(k, j) *= f; }
    for (int i = 0; i < n; i++) if (i != k) { R g = m(i, k); for (int j = 0; j < n; j++) { m(i, j) -= g * m(k, j); b(i, j) -= g * b(k, j); } }
  }
  return b;
}
inline Mat chol(const Mat& m)   // lower triangular L, L L' = m
{
  int n = m.r; Mat L(n, n);
  for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
    R s = m(i, j); for (int k = 0; k < j; k++) s -= L(i, k) * L(j, k);
    L(i, j) = (i == j) ? std::sqrt(s) : s / L(j, j);
  }
  return L;
}
inline Mat col(std::initializer_list<double> v) { Mat m((int)v.size(), 1); int i = 0; for (double x : v) m(i++) = x; return m; }
inline Mat mat(int r, int c, std::initializer_list<double> v) { Mat m(r, c); int i = 0; for (double x : v) m.a[i++] = x; return m; }
inline R gauss_pdf(const Mat& x, const Mat& mu, const Mat& S)
{
  Mat d = x - mu; R q = (T(d) * inv(S) * d)(0);
  return std::exp(-q / 2) / std::sqrt(std::pow((R)(2 * M_PIl), (R)x.r) * det(S));
}
inline mc::H& hash(mc::H& h, const Mat& m) { h(m.r)(m.c); for (R v : m.a) h((double)v); return h; }
inline std::string str(const Mat& m)
{ std::string s = "["; for (int i = 0; i < m.r; i++) { for (int j = 0; j < m.c; j++) s += mc::fmt("%s%.6g", j ? " " : "", (double)m(i, j)); if (i + 1 < m.r) s += "; "; } return s + "]"; }
}  // namespace ref
#endif

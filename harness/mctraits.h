#ifndef VERIF_MCTRAITS_H
#define VERIF_MCTRAITS_H
#include "bflref.h"
#include <pdf/mcpdf.h>
// values of the sample types the library supports; val(i) are pairwise distinct, key() recovers i
struct TInt { typedef int T; enum { dim = 1 }; static T val(int i) { return 3 * i - 4; } static int key(const T& v) { return ((v + 4) % 3 == 0) ? (v + 4) / 3 : -1; } static bool same(const T& a, const T& b) { return a == b; } };
struct TUns { typedef unsigned T; enum { dim = 1 }; static T val(int i) { return 2 + 5 * i; } static int key(const T& v) { return (v >= 2 && (v - 2) % 5 == 0) ? (int)(v - 2) / 5 : -1; } static bool same(const T& a, const T& b) { return a == b; } };
struct TDbl { typedef double T; enum { dim = 1 }; static T val(int i) { return 0.5 * i - 1.25; } static int key(const T& v) { double k = (v + 1.25) * 2; return k == std::floor(k) && k >= 0 && k < 1e6 ? (int)k : -1; } static bool same(const T& a, const T& b) { return a == b; } };
template <int D> struct TVec {
  typedef MatrixWrapper::ColumnVector T; enum { dim = D };
  static double comp(int i, int d) { static const double q[4] = {1.0, -0.5, 0.25, 3.0}; return i * q[d % 4] + d - (i % 2) * 0.75 * d; }
  static T val(int i) { T v(D); for (int d = 0; d < D; d++) v(d + 1) = comp(i, d); return v; }
  static int key(const T& v) { if ((int)v.rows() != D) return -1; int i = (int)std::floor(v(1) + 0.5); if (i < 0 || i > 1000000) return -1; for (int d = 0; d < D; d++) if (v(d + 1) != comp(i, d)) return -1; return i; }
  static bool same(const T& a, const T& b) { if (a.rows() != b.rows()) return false; for (unsigned d = 1; d <= a.rows(); d++) if (a(d) != b(d)) return false; return true; }
};
#endif

// Conversions between the library's matrix types and the reference ones.
#ifndef VERIF_BFLREF_H
#define VERIF_BFLREF_H
#include "ref.h"
#include <wrappers/matrix/matrix_wrapper.h>
#include <wrappers/matrix/vector_wrapper.h>
// reading through the non-const accessor: the const one of the boost matrices copies the whole object (it is compared with the other one in C21)
namespace br {
using MatrixWrapper::ColumnVector; using MatrixWrapper::RowVector; using MatrixWrapper::Matrix; using MatrixWrapper::SymmetricMatrix;
inline ColumnVector cv(const ref::Mat& m) { ColumnVector v(m.r * m.c); for (int i = 0; i < m.r * m.c; i++) v(i + 1) = (double)m(i); return v; }
inline RowVector rv(const ref::Mat& m) { RowVector v(m.r * m.c); for (int i = 0; i < m.r * m.c; i++) v(i + 1) = (double)m(i); return v; }
inline Matrix mx(const ref::Mat& m) { Matrix v(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) v(i + 1, j + 1) = (double)m(i, j); return v; }
inline SymmetricMatrix sm(const ref::Mat& m) { SymmetricMatrix v(m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) v(i + 1, j + 1) = (double)m(i, j); return v; }
inline ref::Mat from(const ColumnVector& w) { ColumnVector& v = const_cast<ColumnVector&>(w); ref::Mat m((int)v.rows(), 1); for (int i = 0; i < m.r; i++) m(i) = v(i + 1); return m; }
inline ref::Mat from(const RowVector& w) { RowVector& v = const_cast<RowVector&>(w); ref::Mat m(1, (int)v.columns()); for (int i = 0; i < m.c; i++) m(i) = v(i + 1); return m; }
inline ref::Mat from(const Matrix& w) { Matrix& v = const_cast<Matrix&>(w); ref::Mat m((int)v.rows(), (int)v.columns()); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) = v(i + 1, j + 1); return m; }
inline ref::Mat from(const SymmetricMatrix& w) { SymmetricMatrix& v = const_cast<SymmetricMatrix&>(w); ref::Mat m((int)v.rows(), (int)v.columns()); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) = v(i + 1, j + 1); return m; }
// element-wise comparison relative to the largest magnitude involved
inline void same(mc::Ctx& c, const ref::Mat& got, const ref::Mat& want, const char* what, double tol = 1e-8, double floor = 1)
{
  c.checks++; if (got.r != want.r || got.c != want.c) c.fail(mc::fmt("%s: size %dx%d, expected %dx%d", what, got.r, got.c, want.r, want.c));
  double s = floor; for (auto v : want.a) s = std::fmax(s, std::fabs((double)v));
  for (int i = 0; i < got.r; i++) for (int j = 0; j < got.c; j++) {
    double d = (double)(got(i, j) - want(i, j));
    if (!(std::fabs(d) <= tol * s)) c.fail(mc::fmt("%s: element (%d,%d) is %.12g, expected %.12g", what, i + 1, j + 1, (double)got(i, j), (double)want(i, j)));
  }
}
}  // namespace br
#endif

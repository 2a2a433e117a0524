// C22: inverses, determinants, Cholesky roots, singular values and pseudo-inverses satisfy their defining equations
#include "mc_main.h"
#include "kfworld.h"
using namespace kw; typedef ColumnVector CV; typedef SymmetricMatrix SM;
static double big(const Mat& m) { double s = 0; for (R v : m.a) s = std::fmax(s, std::fabs((double)v)); return s; }
// condition (largest element of matrix times largest of its inverse); 0 for singular
static double cond(const Mat& m) { double d = std::fabs((double)ref::det(m)); double b = big(m); if (b == 0 || d <= 1e-12 * std::pow(b, m.r)) return 0; return big(m) * big(ref::inv(m)) * m.r; }
static void near(Ctx& c, const Mat& got, const Mat& want, const char* what, double scale, double tol) { c.checks++; if (got.r != want.r || got.c != want.c) c.fail(fmt("%s: size %dx%d", what, got.r, got.c)); for (int i = 0; i < got.r; i++) for (int j = 0; j < got.c; j++) if (!(std::fabs((double)(got(i, j) - want(i, j))) <= tol * scale)) c.fail(fmt("%s: element (%d,%d) is %.12g, expected %.12g", what, i + 1, j + 1, (double)got(i, j), (double)want(i, j))); }
static void general(Ctx& c, const Mat& a)      // square: inverse and determinant
{
  int n = a.r; Matrix A = br::mx(a); double k = cond(a), s = big(a), d = (double)ref::det(a); c.act("matrix %s", ref::str(a).c_str());
  double hs = 1; for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += std::fabs((double)a(i, j)); hs *= r; }
  double g = A.determinant(); c.checks++; if (!(std::fabs(g - d) <= 1e-12 * hs)) c.fail(fmt("determinant is %.15g, expected %.15g", g, d));
  if (k > 0 && k < 1e8) { Mat i = br::from(A.inverse()); near(c, i, ref::inv(a), "inverse", big(ref::inv(a)), 1e-13 * k + 1e-12); near(c, a * i, ref::I(n), "matrix times its inverse", 1, 1e-13 * k * n + 1e-12); }
  br::same(c, br::from(A), a, "matrix unchanged", 0); c.ok(br::from(A.transpose()).a == ref::T(a).a, "transpose"); (void)s; mc::H h; ref::hash(h, a); c.state(h);
}
static void symm(Ctx& c, const Mat& a)
{
  int n = a.r; SM A = br::sm(a); double k = cond(a), d = (double)ref::det(a); c.act("symmetric %s", ref::str(a).c_str()); double hs = 1; for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r += std::fabs((double)a(i, j)); hs *= r; }
  double g = A.determinant(); c.checks++; if (!(std::fabs(g - d) <= 1e-12 * hs)) c.fail(fmt("determinant is %.15g, expected %.15g", g, d));
  if (k > 0 && k < 1e8) near(c, br::from(A.inverse()), ref::inv(a), "inverse of a symmetric matrix", big(ref::inv(a)), 1e-13 * k + 1e-12);
  br::same(c, br::from(A), a, "symmetric matrix unchanged", 0); mc::H h; ref::hash(h, a); c.state(h);
}
// exact definiteness of small symmetric matrices: all principal minors
static R minorof(const Mat& a, int mask) { vector<int> v; for (int i = 0; i < a.r; i++) if (mask >> i & 1) v.push_back(i); Mat m((int)v.size(), (int)v.size()); for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) m(i, j) = a(v[i], v[j]); return ref::det(m); }
static int definite(const Mat& a, double tiny) { for (int m = 1; m < (1 << a.r); m++) { R d = minorof(a, m); if (d < -tiny) return -1; } return 1; }
static void chol(Ctx& c, const Mat& a, bool psd, const char* what)
{
  SM A = br::sm(a); Matrix L; c.act("root of %s", ref::str(a).c_str()); bool ok = A.cholesky_semidefinite(L); Mat l = br::from(L); double s = big(a); br::same(c, br::from(A), a, "matrix unchanged", 0);
  if (psd) { c.ok(ok, fmt("%s: a positive semidefinite matrix was refused: %s", what, ref::str(a).c_str())); for (int i = 0; i < a.r; i++) { c.ok(l(i, i) >= 0, "negative diagonal"); for (int j = i + 1; j < a.r; j++) c.ok(l(i, j) == 0, "not lower triangular"); } near(c, l * ref::T(l), a, fmt("%s: root times its transpose", what).c_str(), s + 1e-12, 1e-9); }
  mc::H h; ref::hash(h, a); c.state(h);
}
static Mat tern(Ctx& c, int r, int k, int lo, int hi) { Mat m(r, k); for (auto& v : m.a) v = lo + c.choose(hi - lo + 1); return m; }
// all matrices over small integers
SCENARIO(square1, 1) { Mat a(1, 1); static const double V[] = {-1e6, -3, -1, -1e-6, 0, 1e-9, 0.3, 1, 2, 1e9}; a(0) = V[c.choose(10)]; general(c, a); symm(c, a); }
SCENARIO(square2, 4) { general(c, tern(c, 2, 2, -3, 3)); }
SCENARIO(square3, 8) { general(c, c.thorough ? tern(c, 3, 3, -1, 2) : tern(c, 3, 3, -1, 1)); }
SCENARIO(square4, 8) { Mat p = tern(c, 4, 1, -1, 1); int k = c.choose(24, "permutation"), s = c.choose(6, "matrix"); Mat g = genmat(4, 4, s); int perm[4] = {0, 1, 2, 3}; for (int i = 0; i < k; i++) std::next_permutation(perm, perm + 4); Mat a(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) a(i, j) = g(perm[i], j) * p(j); for (auto& v : a.a) v = (double)v; general(c, a); }
SCENARIO(symmetric3, 8) { int n = 1 + c.choose(3, "n"); Mat a(n, n); int B = n == 3 ? (c.thorough ? 3 : 2) : 3; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = c.choose(2 * B + 1) - B; symm(c, a); int d = definite(a, 1e-9); if (d > 0) chol(c, a, true, "integer matrix"); else { c.act("indefinite %s", ref::str(a).c_str()); SM A = br::sm(a); Matrix L; bool ok = A.cholesky_semidefinite(L); bool neg = false; for (int m = 0; m < n; m++) if (minorof(a, (2 << m) - 1) < -1e-9) neg = true; bool lead = true; for (int m = 0; m < n - 1; m++) if (minorof(a, (2 << m) - 1) < 1e-9) lead = false;
    if (lead && neg) { c.ok(!ok, "an indefinite matrix was accepted"); Mat l = br::from(L); c.ok(big(l) == 0, "result for an indefinite matrix is not zero"); } } }
// Gram matrices G G' of all small integer G (every rank), and scaled: always semidefinite, also after rounding
SCENARIO(gram, 8)
{
  int n = 1 + c.choose(3, "n"), r = 1 + c.choose(n, "columns"); static const double S[] = {1, 0.1, 1e-3, 1e3, 1.0 / 3}; double sc = S[c.choose(5, "scale")]; Mat g = tern(c, n, r, n == 3 && r == 3 ? 0 : -1, n == 3 ? 1 : 2); Mat a = g * ref::T(g) * (R)sc; for (auto& v : a.a) v = (double)v; chol(c, a, true, "Gram matrix");
}
// smallest pivot of the elimination without exchanges, relative to the diagonal, leaving out those that are zero
static double pivots(Mat a) { double m = 1; Mat o = a; int n = a.r; for (int k = 0; k < n; k++) { double q = o(k, k) > 0 ? (double)(a(k, k) / o(k, k)) : 0; if (q < 1e-14) continue; m = std::fmin(m, q); for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) if (i >= j) { a(i, j) -= a(i, k) * a(j, k) / a(k, k); } } return m; }
// (rank-deficient matrices with a pivot close to zero cannot be told from indefinite ones after rounding: not judged)
SCENARIO(gram_generic, 8)
{
  int n = 2 + c.choose(9, "n"), r = 1 + c.choose(n, "rank"), s = c.choose(13, "matrix"), k = c.choose(4, "scale"); static const double S[] = {1, 1e-4, 1e4, 1e6}; Mat g = genmat(n, r, s); for (auto& v : g.a) v = v * 1.1L + 0.013L * s; Mat a = g * ref::T(g) * (R)S[k]; Mat e = a; for (auto& v : a.a) v = (double)v; if (r == n || pivots(e) > 0.1) chol(c, a, true, "generic Gram matrix");
}
// very different variances with moderate correlations, small and large ones: element by element
SCENARIO(graded, 4)
{
  int n = 1 + c.choose(6, "n"), s = c.choose(6, "matrix"), k = c.choose(5, "scale"), o = c.choose(4, "order"); static const double S[] = {1, 1e-4, 1e-8, 1e4, 1e8}; Mat q = spd(n, s), a(n, n); auto d = [&](int i) { int e = o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i * 3 + 1) % n : 0; return std::pow(10.0L, (R)e * 0.75L - n * 0.375L); };
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = q(i, j) / std::sqrt(q(i, i) * q(j, j)) * (i == j ? 1 : 0.9L) * d(i) * d(j) * S[k]; for (auto& v : a.a) v = (double)v; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) a(i, j) = a(j, i); SM A = br::sm(a); Matrix L; c.act("root of %s", ref::str(a).c_str()); c.ok(A.cholesky_semidefinite(L), "a positive definite matrix was refused"); Mat l = br::from(L), ll = l * ref::T(l);
  for (int i = 0; i < n; i++) { c.ok(l(i, i) > 0, "diagonal of the root"); for (int j = 0; j < n; j++) { if (j > i) c.ok(l(i, j) == 0, "not lower triangular"); c.ok(std::fabs((double)(ll(i, j) - a(i, j))) <= 1e-11 * std::sqrt((double)(a(i, i) * a(j, j))), fmt("element (%d,%d) of root times its transpose is %.12g, expected %.12g", i + 1, j + 1, (double)ll(i, j), (double)a(i, j))); } }
  mc::H h; ref::hash(h, a); c.state(h); symm(c, a); general(c, a);
}
// block matrices: parts that are zero, wherever they are
SCENARIO(semidefinite_zeros, 4)
{
  int n = 1 + c.choose(6, "n"), mask = c.choose(1 << 6, "zero"), s = c.choose(3, "matrix"), k = c.choose(4, "scale"); if (mask >> n) return; static const double S[] = {1, 1e-6, 1e6, 1e-3}; Mat a = spd(n, s) * (R)S[k]; for (int i = 0; i < n; i++) if (mask >> i & 1) for (int j = 0; j < n; j++) a(i, j) = a(j, i) = 0; for (auto& v : a.a) v = (double)v; SM A = br::sm(a); Matrix L; c.act("zero variances %x", mask); c.ok(A.cholesky_semidefinite(L), "a positive semidefinite matrix was refused"); Mat l = br::from(L); near(c, l * ref::T(l), a, "root times its transpose", big(a), 1e-11); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (j > i || (mask >> i & 1)) c.ok(l(i, j) == 0, "element of the root"); mc::H h; ref::hash(h, a); c.state(h);
}
SCENARIO(sizes, 8) { static const int d[] = {2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20}; int n = d[c.choose(11, "n")], s = c.choose(13, "matrix"), k = c.choose(4, "scale"); static const double S[] = {1, 1e-3, 1e3, -1}; Mat a = genmat(n, n, s) * (R)S[k]; for (auto& v : a.a) v = (double)v; general(c, a); Mat p = spd(n, s) * (R)std::fabs(S[k]); for (auto& v : p.a) v = (double)v; symm(c, p); chol(c, p, true, "positive definite matrix"); }
// singular value decomposition and pseudo-inverse
static void svd(Ctx& c, const Mat& a, bool pinv)
{
  int m = a.r, n = a.c; Matrix A = br::mx(a), U, V; CV D; c.act("svd %s", ref::str(a).c_str()); bool ok = A.SVD(D, U, V); c.ok(ok, fmt("SVD of %s reported failure", ref::str(a).c_str())); Mat u = br::from(U), v = br::from(V), d = br::from(D); br::same(c, br::from(A), a, "matrix unchanged", 0);
  c.ok(u.r == m && u.c == n && v.r == n && v.c == n && d.r == n, "sizes of the decomposition"); double s = big(a) * std::sqrt(m * n) + 1e-300; Mat ud(u); for (int j = 0; j < n; j++) { c.ok(d(j) >= 0, fmt("singular value %d of %s is %g", j + 1, ref::str(a).c_str(), (double)d(j))); for (int i = 0; i < m; i++) ud(i, j) *= d(j); }
  near(c, ud * ref::T(v), a, fmt("U D V' for %s", ref::str(a).c_str()).c_str(), s, 1e-11); near(c, ref::T(v) * v, ref::I(n), "V'V", 1, 1e-11); Mat uu = ref::T(u) * u; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (d(i) > 1e-9 * s && d(j) > 1e-9 * s) c.ok(std::fabs((double)(uu(i, j) - (i == j))) < 1e-10, "U'U");
  double eps = 0.01; bool clear = true; for (int i = 0; i < n; i++) if (d(i) > 1e-12 * s && d(i) < 2 * eps) clear = false;
  if (pinv && clear) { Mat p = br::from(A.pseudoinverse()); c.ok(p.r == n && p.c == m, "size of the pseudo-inverse"); double t = big(p) + 1; near(c, a * p * a, a, "A P A", s * (1 + s * t), 1e-11); near(c, p * a * p, p, "P A P", t * (1 + s * t), 1e-11); Mat ap = a * p, pa = p * a; near(c, ap, ref::T(ap), "A P symmetric", 1 + s * t, 1e-11); near(c, pa, ref::T(pa), "P A symmetric", 1 + s * t, 1e-11); if (m == n && cond(a) > 0) near(c, p, ref::inv(a), "pseudo-inverse of a regular matrix", t, 1e-10); }
  mc::H h; ref::hash(h, a); c.state(h);
}
SCENARIO(svd_small, 8) { int m = 1 + c.choose(3, "m"), n = 1 + c.choose(3, "n"); svd(c, tern(c, m, n, m * n == 9 && !c.thorough ? 0 : -1, m * n <= 4 ? 2 : 1), true); }
SCENARIO(svd_rank, 8) { int m = 1 + c.choose(6, "m"), n = 1 + c.choose(6, "n"), r = c.choose(std::min(m, n) + 1, "rank"), s = c.choose(6, "matrix"), k = c.choose(3, "scale"); static const double S[] = {1, 100, 3}; Mat a(m, n); if (r) a = genmat(m, r, s) * genmat(r, n, s + 3) * (R)S[k]; for (auto& v : a.a) v = (double)v; svd(c, a, true); }
SCENARIO(svd_sizes, 8) { static const int d[] = {7, 8, 10, 13, 20}; int m = d[c.choose(5, "m")], n = d[c.choose(5, "n")], s = c.choose(6, "matrix"); Mat a = genmat(m, n, s); for (auto& v : a.a) v = (double)v; svd(c, a, true); }
// pseudo-inverse: singular values below the given threshold count as zero
SCENARIO(threshold, 4) { int n = 1 + c.choose(3, "n"), k = c.choose(4, "threshold"); static const double E[] = {0.001, 0.05, 0.5, 5}, W[] = {0.003, 0.02, 0.3, 2, 10}; Mat d(n, n); for (int i = 0; i < n; i++) d(i, i) = W[c.choose(5, "singular value")]; double an = 0.7; Mat q = ref::I(n), w = ref::I(n); if (n > 1) { q(0, 0) = q(1, 1) = std::cos(an); q(1, 0) = std::sin(an); q(0, 1) = -q(1, 0); w(n - 1, n - 1) = w(0, 0) = std::cos(2 * an); w(0, n - 1) = std::sin(2 * an); w(n - 1, 0) = -w(0, n - 1); } Mat a = q * d * ref::T(w), di(n, n); for (int i = 0; i < n; i++) di(i, i) = (double)d(i, i) < E[k] ? 0 : 1 / d(i, i); c.act("threshold"); near(c, br::from(br::mx(a).pseudoinverse(E[k])), w * di * ref::T(q), "pseudo-inverse with threshold", 1 + big(di), 1e-10); mc::H h; ref::hash(h, d); h(k); c.state(h); }

// C21: vectors and matrices: every operator computes the mathematical result, in every succession
#include "mc_main.h"
#include "kfworld.h"
using namespace kw; using MatrixWrapper::RowVector; typedef ColumnVector CV; typedef RowVector RV; typedef SymmetricMatrix SM;
static Mat rnd(const Mat& m) { return br::from(br::mx(m)); }
static Mat fill(const Mat& m, double v) { return Mat(m.r, m.c, v); }
static Mat addc(const Mat& m, double v) { return m + fill(m, v); }
static Mat low(const Mat& q) { Mat s(q); for (int i = 0; i < q.r; i++) for (int j = i + 1; j < q.c; j++) s(i, j) = q(j, i); return s; }
static Mat rowof(const Mat& m, int i) { Mat r(1, m.c); for (int j = 0; j < m.c; j++) r(j) = m(i, j); return r; }
static Mat colof(const Mat& m, int j) { Mat r(m.r, 1); for (int i = 0; i < m.r; i++) r(i) = m(i, j); return r; }
static Mat subof(const Mat& m, int a, int b, int d, int e) { Mat s(b - a + 1, e - d + 1); for (int i = a; i <= b; i++) for (int j = d; j <= e; j++) s(i - a, j - d) = m(i - 1, j - 1); return s; }
static bool invertible(const Mat& m) { double d = std::fabs((double)ref::det(m)), s = 0; for (R v : m.a) s = std::fmax(s, std::fabs((double)v)); if (!(d > 1e-3) || s > 1e3) return false; Mat i = ref::inv(m); double t = 0; for (R v : i.a) t = std::fmax(t, std::fabs((double)v)); return s * t < 100; }
// the objects: M, N m x n; Q n x n; S, T symmetric n x n; x, y columns n; z column m; r, s rows n
struct Reg {
  Matrix M, N, Q; SM S, T; CV x, y, z; RV r, s; Mat rM, rN, rQ, rS, rT, rx, ry, rz, rr, rs;
  double floor = 1;
  // contents: 0 generic, 1 small, 2 large, 3 mostly zero, 4 of very different magnitudes (powers of two: scaling is exact)
  static Mat as(const Mat& a, int pat) { Mat b(a); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) { if (pat == 1) b(i, j) *= std::ldexp(1.0L, -40); if (pat == 2) b(i, j) *= std::ldexp(1.0L, 40); if (pat == 3 && (i * 2 + j * 2 + i * j) % 5) b(i, j) = 0; if (pat == 4) b(i, j) *= std::ldexp(1.0L, 9 * ((i + j) % 4) - 12); } return rnd(b); }
  Reg(int m, int n, int pat) : Reg(m, n) { if (!pat) return; floor = 1e-300; for (Mat* p : {&rM, &rN, &rQ, &rS, &rT, &rx, &ry, &rz, &rr, &rs}) *p = as(*p, pat); M = br::mx(rM); N = br::mx(rN); Q = br::mx(rQ); S = br::sm(rS); T = br::sm(rT); x = br::cv(rx); y = br::cv(ry); z = br::cv(rz); r = br::rv(rr); s = br::rv(rs); }
  Reg(int m, int n) : M(m, n), N(m, n), Q(n, n), S(n), T(n), x(n), y(n), z(m), r(n), s(n)
  { rM = rnd(genmat(m, n, 1)); rN = rnd(genmat(m, n, 5)); rQ = rnd(genmat(n, n, 3)); rS = rnd(spd(n, 2)); Mat g = genmat(n, n, 7); rT = rnd(g + ref::T(g)); rx = rnd(gencol(n, 1)); ry = rnd(gencol(n, 4)); rz = rnd(gencol(m, 6)); rr = rnd(ref::T(gencol(n, 2))); rs = rnd(ref::T(gencol(n, 9))); M = br::mx(rM); N = br::mx(rN); Q = br::mx(rQ); S = br::sm(rS); T = br::sm(rT); x = br::cv(rx); y = br::cv(ry); z = br::cv(rz); r = br::rv(rr); s = br::rv(rs); }
  void chk(Ctx& c, const char* op, double tol)
  {
#define K(a) br::same(c, br::from(a), r##a, #a, tol, floor)
    K(M); K(N); K(Q); K(S); K(T); K(x); K(y); K(z); K(r); K(s);
    for (int i = 1; i <= rS.r; i++) for (int j = 1; j < i; j++) c.ok(std::fabs(S(i, j) - S(j, i)) <= 1e-9 * (std::fmin(1.0, floor) + std::fabs(S(i, j))), "symmetric matrix is not symmetric");
    c.ok((int)M.rows() == rM.r && (int)M.columns() == rM.c && (int)M.size() == rM.r && (int)M.capacity() == rM.r && (int)S.rows() == rS.r && (int)S.columns() == rS.r && (int)S.size() == rS.r && (int)S.capacity() == rS.r && (int)x.rows() == rx.r && x.columns() == 1 && (int)x.capacity() == rx.r && r.rows() == 1 && (int)r.columns() == rr.c && (int)r.capacity() == rr.c, "sizes");
  }
};
struct Op { const char* name; std::function<void(Reg&)> f, g; std::function<bool(const Reg&)> can; };
#define OP(nm, impl, refr) {nm, [](Reg& R) { Matrix &M = R.M, &N = R.N, &Q = R.Q; SM &S = R.S, &T = R.T; CV &x = R.x, &y = R.y, &z = R.z; RV &r = R.r, &s = R.s; (void)M; (void)N; (void)Q; (void)S; (void)T; (void)x; (void)y; (void)z; (void)r; (void)s; impl; }, [](Reg& R) { Mat &M = R.rM, &N = R.rN, &Q = R.rQ, &S = R.rS, &T = R.rT, &x = R.rx, &y = R.ry, &z = R.rz, &r = R.rr, &s = R.rs; (void)M; (void)N; (void)Q; (void)S; (void)T; (void)x; (void)y; (void)z; (void)r; (void)s; refr; }, nullptr}
static const vector<Op>& ops()
{
  static vector<Op> v; if (v.size()) return v;
  v = {
    OP("M+=a", M += 1.5, M = addc(M, 1.5)), OP("M-=a", M -= 0.25, M = addc(M, -0.25)), OP("M*=a", M *= -0.5, M = M * -0.5L), OP("M/=a", M /= 4, M = M * 0.25L), OP("M=N+a", M = N + 2.0, M = addc(N, 2)), OP("N=M-a", N = M - 3.0, N = addc(M, -3)), OP("M=M*a", M = M * -1.5, M = M * -1.5L), OP("N=M/a", N = M / -2.0, N = M * -0.5L), OP("M=a", M = 0.75, M = fill(M, 0.75)),
    OP("M=N", M = N, M = N), OP("M=M", M = *(&M), ), OP("M+=N", M += N, M = M + N), OP("M-=N", M -= N, M = M - N), OP("M+=M", M += M, M = M * 2), OP("N=M+N", N = M + N, N = M + N), OP("M=M-N", M = M - N, M = M - N), OP("M=M*Q", M = M * Q, M = M * Q), OP("Q=N'*M", Q = N.transpose() * M, Q = ref::T(N) * M), OP("Q=Q*Q", Q = Q * Q, Q = Q * Q), OP("Q=Q'", Q = Q.transpose(), Q = ref::T(Q)),
    OP("z=M*x", z = M * x, z = M * x), OP("x=Q*x", x = Q * x, x = Q * x), OP("x=S*y", x = S * y, x = S * y), OP("S.multiply(y,x)", S.multiply(y, x), x = S * y), OP("T.multiply(x,x)", T.multiply(x, x), x = T * x),
    OP("Q=S", Q = S, Q = S), OP("Q=Matrix(T)", Q = Matrix(T), Q = T), OP("Q=S*T", Q = S * T, Q = S * T), OP("Q=S*Q", Q = S * Q, Q = S * Q), OP("Q=S+Q", Q = S + Q, Q = S + Q), OP("Q=T-Q", Q = T - Q, Q = T - Q), OP("Q=Q+S", Q = Q + (Matrix)S, Q = Q + S), OP("M=N*S", M = N * (Matrix)S, M = N * S),
    OP("S+=T", S += T, S = S + T), OP("S-=T", S -= T, S = S - T), OP("S=S+T", S = S + T, S = S + T), OP("T=S-T", T = S - T, T = S - T), OP("S=T", S = T, S = T), OP("T=SM(S)", T = SM(S), T = S), OP("S+=a", S += 0.5, S = addc(S, 0.5)), OP("S-=a", S -= 1.5, S = addc(S, -1.5)), OP("S*=a", S *= 0.5, S = S * 0.5L), OP("S/=a", S /= 2, S = S * 0.5L), OP("S=T+a", S = T + 1.0, S = addc(T, 1)), OP("S=T-a", S = T - 1.0, S = addc(T, -1)), OP("T=T*a", T = T * -2.0, T = T * -2), OP("T=S/a", T = S / 8.0, T = S * 0.125L), OP("S=a", S = 1.25, S = fill(S, 1.25)), OP("T=S'", T = S.transpose(), T = S), OP("S+=Matrix(T)", S += (Matrix)T, S = S + T), OP("S-=Matrix(T)", S -= (Matrix)T, S = S - T), OP("S+=S", S += S, S = S * 2),
    OP("Q to S", Q.convertToSymmetricMatrix(S), S = low(Q)), OP("(x x') to T", (x * x.transpose()).convertToSymmetricMatrix(T), T = x * ref::T(x)), OP("convert to an empty one", SM e; Q.convertToSymmetricMatrix(e); T = e, T = low(Q)),
    OP("x+=y", x += y, x = x + y), OP("x-=y", x -= y, x = x - y), OP("x=x+y", x = x + y, x = x + y), OP("y=x-y", y = x - y, y = x - y), OP("x=y", x = y, x = y), OP("x=x", x = *(&x), ), OP("x+=x", x += x, x = x * 2), OP("x+=a", x += 1.5, x = addc(x, 1.5)), OP("x-=a", x -= 2.5, x = addc(x, -2.5)), OP("x*=a", x *= -0.5, x = x * -0.5L), OP("x/=a", x /= 4, x = x * 0.25L), OP("y=x+a", y = x + 1.0, y = addc(x, 1)), OP("y=x-a", y = x - 0.5, y = addc(x, -0.5)), OP("y=x*a", y = x * 3.0, y = x * 3), OP("y=x/a", y = x / 3.0, y = x * (1 / 3.0L)), OP("x=a", x = -1.5, x = fill(x, -1.5)),
    OP("r+=s", r += s, r = r + s), OP("r-=s", r -= s, r = r - s), OP("r=r+s", r = r + s, r = r + s), OP("s=r-s", s = r - s, s = r - s), OP("r=s", r = s, r = s), OP("r+=a", r += 1.5, r = addc(r, 1.5)), OP("r-=a", r -= 2.5, r = addc(r, -2.5)), OP("r*=a", r *= -0.5, r = r * -0.5L), OP("r/=a", r /= 4, r = r * 0.25L), OP("s=r+a", s = r + 1.0, s = addc(r, 1)), OP("s=r-a", s = r - 0.5, s = addc(r, -0.5)), OP("s=r*a", s = r * 3.0, s = r * 3), OP("s=r/a", s = r / 3.0, s = r * (1 / 3.0L)), OP("r=a", r = -1.5, r = fill(r, -1.5)),
    OP("r=x'", r = x.transpose(), r = ref::T(x)), OP("y=r'", y = r.transpose(), y = ref::T(r)), OP("Q=x*r", Q = x * r, Q = x * r), OP("M=z*s", M = z * s, M = z * s), OP("x*=(r*y)/10", x *= (r * y) / 10, x = x * ((r * y)(0) / 10)), OP("x*=(x'*S*x)/100", x *= (double)(x.transpose() * (CV)(S * x)) / 100, x = x * ((ref::T(x) * S * x)(0) / 100)),
    OP("r=row 1 of M", r = M.rowCopy(1), r = rowof(M, 0)), OP("s=last row of Q", s = Q.rowCopy(Q.rows()), s = rowof(Q, Q.r - 1)), OP("s=row of S", s = S.rowCopy(S.rows()), s = rowof(S, S.r - 1)), OP("z=column of M", z = M.columnCopy(M.columns()), z = colof(M, M.c - 1)), OP("x=column 1 of Q", x = Q.columnCopy(1), x = colof(Q, 0)),
    OP("M(1,n)=7", M(1, M.columns()) = 7, M(0, M.c - 1) = 7), OP("S both", S(1, S.rows()) = 3; S(S.rows(), 1) = 3, S(0, S.r - 1) = 3; S(S.r - 1, 0) = 3), OP("x(n)=2, x[0]=1", x(x.rows()) = 2; x[0] = 1, x(x.r - 1) = 2; x(0) = 1), OP("r(n)=2", r(r.columns()) = 2, r(r.c - 1) = 2),
    OP("x.assign", x.assign(x.rows(), 2.5), x = fill(x, 2.5)), OP("r.assign", r.assign(r.columns(), 0.5), r = fill(r, 0.5)), OP("y=CV(n,a)", y = CV((int)y.rows(), 4.5), y = fill(y, 4.5)), OP("s=RV(n,a)", s = RV((int)s.columns(), -4.5), s = fill(s, -4.5)), OP("M=Matrix(m,r)", M = Matrix((int)M.rows(), r), for (int i = 0; i < M.r; i++) for (int j = 0; j < M.c; j++) M(i, j) = r(j)),
    OP("z=z", CV t(z); z = 0.0; z = t, ), OP("chain", M = N = M + N; x = y = x + y; r = s = r + s; S = T = S + T, N = M + N; M = N; y = x + y; x = y; s = r + s; r = s; T = S + T; S = T), OP("chained results", (M += N) *= 0.5; (x += y) -= 1.0; (S += T) /= 2; (r -= s) += 1.0, M = (M + N) * 0.5L; x = addc(x + y, -1); S = (S + T) * 0.5L; r = addc(r - s, 1)),
  };
  Op i = OP("Q=inverse", Q = Q.inverse(), Q = ref::inv(Q)); i.can = [](const Reg& R) { return invertible(R.rQ); }; v.push_back(i); Op k = OP("S=inverse", S = S.inverse(), S = ref::inv(S)); k.can = [](const Reg& R) { return invertible(R.rS); }; v.push_back(k); Op d = OP("x*=det(Q)", x *= Q.determinant() / 16, x = x * (ref::det(Q) / 16)); d.can = [](const Reg& R) { return invertible(R.rQ); }; v.push_back(d); Op e = OP("y*=det(S)", y *= S.determinant() / 16, y = y * (ref::det(S) / 16)); e.can = [](const Reg& R) { return invertible(R.rS); }; v.push_back(e); return v;
}
static void apply(Ctx& c, Reg& R, int o, double tol) { const Op& p = ops()[o]; if (p.can && !p.can(R)) return; c.act("%s", p.name); p.f(R); p.g(R); R.chk(c, p.name, tol); mc::H h; ref::hash(h, R.rM); ref::hash(h, R.rQ); ref::hash(h, R.rS); ref::hash(h, R.rx); ref::hash(h, R.rr); c.state(h); }
SCENARIO(single, 4) { int m = 1 + c.choose(6, "m"), n = 1 + c.choose(6, "n"), o = c.choose((int)ops().size(), "op"); Reg R(m, n); apply(c, R, o, 1e-10); }
SCENARIO(values, 8) { int m = 1 + c.choose(5, "m"), n = 1 + c.choose(5, "n"), pat = 1 + c.choose(4, "contents"), o = c.choose((int)ops().size(), "op"); Reg R(m, n, pat); apply(c, R, o, 1e-10); if (c.thorough) apply(c, R, c.choose((int)ops().size(), "op"), 1e-8); }
// scalars of every kind, on every type
SCENARIO(scalars, 4)
{
  int n = 1 + c.choose(4, "n"), pat = c.choose(5, "contents"), k = c.choose(10, "scalar"); static const double A[] = {1, -1, 2, 1.0 / 3, 1e-9, 1e9, -1e-200, 1e150, 0, 3e-5}; double a = A[k]; Reg R(3, n, pat); c.act("scalar %g", a); c.state(mc::H()(n)(pat)(k));
#define EACH(OPR, EXP) { Matrix X(R.M); X OPR##= a; SM Y(R.S); Y OPR##= a; CV v(R.x); v OPR##= a; RV w(R.r); w OPR##= a; Matrix X2 = R.M OPR a; SM Y2 = R.S OPR a; CV v2 = R.x OPR a; RV w2 = R.r OPR a; auto f = [&](double q) { volatile double e = EXP; return e; }; \
    auto t = [&](const Mat& g, const Mat& o, const char* what) { c.checks++; for (size_t i = 0; i < o.a.size(); i++) { double e = f((double)o.a[i]), h = (double)g.a[i]; if (!(h == e || std::fabs(h - e) <= 4e-16 * std::fabs(e) + 1e-320)) c.fail(fmt("%s %s %g: element %zu is %.17g, expected %.17g", what, #OPR, a, i + 1, h, e)); } }; \
    t(br::from(X), R.rM, "matrix"); t(br::from(X2), R.rM, "matrix"); t(br::from(Y), R.rS, "symmetric matrix"); t(br::from(Y2), R.rS, "symmetric matrix"); t(br::from(v), R.rx, "column"); t(br::from(v2), R.rx, "column"); t(br::from(w), R.rr, "row"); t(br::from(w2), R.rr, "row"); R.chk(c, "operands", 0); }
  EACH(+, q + a) EACH(-, q - a) EACH(*, q * a) if (a != 0) EACH(/, q / a)
  R.M = a; R.S = a; R.x = a; R.r = a; R.rM = fill(R.rM, a); R.rS = fill(R.rS, a); R.rx = fill(R.rx, a); R.rr = fill(R.rr, a); R.chk(c, "assigned", 0);
}
SCENARIO(pairs, 16) { static const int P[4][2] = {{2, 2}, {1, 3}, {3, 1}, {3, 2}}; int m, n; if (c.thorough) { m = 1 + c.choose(4, "m"); n = 1 + c.choose(4, "n"); } else { int k = c.choose(4, "shape"); m = P[k][0]; n = P[k][1]; } Reg R(m, n); for (int k = 0; k < 2; k++) apply(c, R, c.choose((int)ops().size(), "op"), 1e-9); }
SCENARIO(triples, 16) { static const int mm[] = {2, 1, 3}, nn[] = {2, 3, 1}; int w = c.thorough ? c.choose(3, "shape") : 0; Reg R(mm[w], nn[w]); vector<int> sub; int N = (int)ops().size(); for (int i = 0; i < N; i += c.thorough ? 1 : 4) sub.push_back(i); for (int k = 0; k < 3; k++) apply(c, R, sub[c.choose((int)sub.size(), "op")], 1e-8); }
SCENARIO(large, 4) { static const int d[] = {7, 8, 9, 12, 16, 17, 32, 40}; int m = d[c.choose(8, "m")], n = d[c.choose(8, "n")], o = c.choose((int)ops().size(), "op"); const Op& p = ops()[o]; if (p.can) return; Reg R(m, n); apply(c, R, o, 1e-10); }
// equality: exactly when sizes and all elements agree
SCENARIO(equality, 4)
{
  int m = 1 + c.choose(3, "m"), n = 1 + c.choose(3, "n"), kind = c.choose(4, "type"), diff = c.choose(m * n + 3, "difference"); static const double D[] = {1, 1e-9, -1e-300, 4.9e-324}; double dv = D[c.choose(4, "by")]; Mat a = rnd(genmat(m, n, 3)); for (auto& v : a.a) v = std::floor((double)v); c.act("compare"); c.state(mc::H()(m)(n)(kind)(diff)(dv));
  if (std::fabs(dv) < 1e-100) for (auto& v : a.a) v = 0;
  if (kind == 0) { Matrix x = br::mx(a), y = br::mx(a); bool e = true; if (diff < m * n) { y(diff / n + 1, diff % n + 1) += dv; e = false; } else if (diff == m * n + 1) { y = Matrix(m + 1, n); y = 0.0; e = false; } else if (diff == m * n + 2) { y = Matrix(m, n + 1); y = 0.0; e = false; } c.eq(x == y, e, "Matrix =="); c.eq(y == x, e, "Matrix =="); c.ok(x == x, "Matrix == itself"); }
  if (kind == 1) { Mat q = low(rnd(genmat(n, n, 3))); if (std::fabs(dv) < 1e-100) q = Mat(n, n); for (auto& v : q.a) v = std::floor((double)v); SM x = br::sm(q), y = br::sm(q); bool e = true; if (diff < n) { y(n, diff + 1) += dv; if (diff + 1 < n) y(diff + 1, n) = y(n, diff + 1); e = false; } else if (diff == m * n + 1) { y = SM(n + 1); y = 0.0; e = false; } c.eq(x == y, e, "SymmetricMatrix =="); c.eq(y == x, e, "SymmetricMatrix =="); }
  if (kind == 2) { Mat q = rnd(gencol(n, 3)); for (auto& v : q.a) v = std::floor((double)v); if (std::fabs(dv) < 1e-100) q = Mat(n, 1); CV x = br::cv(q), y = br::cv(q); bool e = true; if (diff < n) { y(diff + 1) += dv; e = false; } else if (diff == m * n + 1) { y = CV(n + 1); y = 0.0; e = false; } c.eq(x == y, e, "ColumnVector =="); c.eq(y == x, e, "ColumnVector =="); }
  if (kind == 3) { Mat q = rnd(gencol(n, 3)); for (auto& v : q.a) v = std::floor((double)v); if (std::fabs(dv) < 1e-100) q = Mat(n, 1); RV x = br::rv(q), y = br::rv(q); bool e = true; if (diff < n) { y(diff + 1) += dv; e = false; } else if (diff == m * n + 1) { y = RV(n + 1); y = 0.0; e = false; } c.eq(x == y, e, "RowVector =="); c.eq(y == x, e, "RowVector =="); }
}
// all parts, rows, columns, concatenations
SCENARIO(parts, 8)
{
  int m = 1 + c.choose(5, "m"), n = 1 + c.choose(5, "n"); Mat a = rnd(genmat(m, n, 4)), q = low(rnd(genmat(n, n, 5))); Matrix M = br::mx(a); SM S = br::sm(q); CV x = br::cv(colof(a, 0)); RV r = br::rv(rowof(a, 0)); const Matrix& Mc = M; const SM& Sc = S; c.act("parts"); c.state(mc::H()(m)(n));
  for (int i = 1; i <= m; i++) { br::same(c, br::from(M.rowCopy(i)), rowof(a, i - 1), "rowCopy", 0); br::same(c, br::from(M[i]), rowof(a, i - 1), "operator[]", 0); for (int j = 1; j <= n; j++) c.ok(M(i, j) == (double)a(i - 1, j - 1) && Mc(i, j) == (double)a(i - 1, j - 1), "element"); }
  for (int j = 1; j <= n; j++) { br::same(c, br::from(M.columnCopy(j)), colof(a, j - 1), "columnCopy", 0); br::same(c, br::from(S.rowCopy(j)), rowof(q, j - 1), "rowCopy of a symmetric matrix", 0); br::same(c, br::from(S[j]), rowof(q, j - 1), "operator[] of a symmetric matrix", 0); for (int i = 1; i <= n; i++) c.ok(S(i, j) == (double)q(i - 1, j - 1) && Sc(i, j) == (double)q(i - 1, j - 1), "element of a symmetric matrix"); }
  for (int i = 1; i <= m; i++) for (int k = i; k <= m; k++) { for (int j = 1; j <= n; j++) for (int l = j; l <= n; l++) br::same(c, br::from(M.sub(i, k, j, l)), subof(a, i, k, j, l), "sub", 0); br::same(c, br::from(x.sub(i, k)), subof(colof(a, 0), i, k, 1, 1), "sub of a column", 0); }
  for (int j = 1; j <= n; j++) for (int l = j; l <= n; l++) { br::same(c, br::from(r.sub(j, l)), subof(rowof(a, 0), 1, 1, j, l), "sub of a row", 0); for (int i = 1; i <= n; i++) for (int k = i; k <= n; k++) br::same(c, br::from(S.sub(i, k, j, l)), subof(q, i, k, j, l), "sub of a symmetric matrix", 0); }
  CV w = br::cv(gencol(n, 7)); Mat ww = br::from(w), cat(m + n, 1), tac(m + n, 1); for (int i = 0; i < m; i++) { cat(i) = a(i, 0); tac(n + i) = a(i, 0); } for (int i = 0; i < n; i++) { cat(m + i) = ww(i); tac(i) = ww(i); } br::same(c, br::from(x.vectorAdd(w)), cat, "vectorAdd", 0); br::same(c, br::from(w.vectorAdd(x)), tac, "vectorAdd", 0); br::same(c, br::from(CV(x, w)), cat, "joining constructor", 0);
  RV u = br::rv(gencol(m, 8)); Mat uu = br::from(u), cr(1, n + m); for (int i = 0; i < n; i++) cr(i) = a(0, i); for (int i = 0; i < m; i++) cr(n + i) = uu(i); br::same(c, br::from(r.vectorAdd(u)), cr, "vectorAdd of rows", 0); br::same(c, br::from(x.transpose()), ref::T(colof(a, 0)), "transpose", 0); br::same(c, br::from(r.transpose()), ref::T(rowof(a, 0)), "transpose", 0);
  Matrix A(m, r); Mat rep(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) rep(i, j) = a(0, j); br::same(c, br::from(A), rep, "matrix of equal rows", 0); br::same(c, br::from(M), a, "matrix unchanged", 0); br::same(c, br::from(S), q, "symmetric matrix unchanged", 0); br::same(c, br::from(x), colof(a, 0), "column unchanged", 0); br::same(c, br::from(r), rowof(a, 0), "row unchanged", 0);
  for (int v = 0; v < 3; v++) { CV k(n, v - 1.0); br::same(c, br::from(k), Mat(n, 1, v - 1.0L), "constant column", 0); RV l(n, v - 1.0); br::same(c, br::from(l), Mat(1, n, v - 1.0L), "constant row", 0); CV e; e.assign(m, v); br::same(c, br::from(e), Mat(m, 1, v), "assigned column", 0); RV f(2); f.assign(m, v); br::same(c, br::from(f), Mat(1, m, v), "assigned row", 0); }
}
// assignment takes over size and value; resizing keeps the common part on request and copies stay independent
SCENARIO(resizing, 8)
{
  int m = 1 + c.choose(3, "m"), n = 1 + c.choose(3, "n"), m2 = 1 + c.choose(4, "m2"), n2 = 1 + c.choose(4, "n2"); Mat a = rnd(genmat(m, n, 4)), b = rnd(genmat(m2, n2, 6)), q = low(rnd(genmat(n, n, 5))), q2 = low(rnd(genmat(n2, n2, 7))); c.act("resize"); c.state(mc::H()(m)(n)(m2)(n2));
  Matrix A = br::mx(a), B = br::mx(b), C(A); SM S = br::sm(q), T = br::sm(q2), U(S); CV x = br::cv(colof(a, 0)), y = br::cv(colof(b, 0)); RV r = br::rv(rowof(a, 0)), s = br::rv(rowof(b, 0)); A = B; S = T; x = y; r = s; br::same(c, br::from(A), b, "assigned matrix", 0); br::same(c, br::from(S), q2, "assigned symmetric matrix", 0); br::same(c, br::from(x), colof(b, 0), "assigned column", 0); br::same(c, br::from(r), rowof(b, 0), "assigned row", 0); br::same(c, br::from(C), a, "copy", 0); br::same(c, br::from(U), q, "copy of a symmetric matrix", 0);
  A(1, 1) = 99; x(1) = 99; r(1) = 99; S(1, 1) = 99; br::same(c, br::from(B), b, "source of an assignment", 0); br::same(c, br::from(y), colof(b, 0), "source of an assignment", 0); br::same(c, br::from(s), rowof(b, 0), "source of an assignment", 0); br::same(c, br::from(T), q2, "source of an assignment", 0);
  for (int how = 0; how < 3; how++) { Matrix D = br::mx(a); SM V = br::sm(q); if (how == 0) { D.resize(m2, n2); V.resize(n2); } else { D.resize(m2, n2, how == 1); V.resize(n2, how == 1); } c.ok((int)D.rows() == m2 && (int)D.columns() == n2 && (int)V.rows() == n2 && (int)V.columns() == n2, "resized"); if (how < 2) { for (int i = 1; i <= std::min(m, m2); i++) for (int j = 1; j <= std::min(n, n2); j++) c.ok(D(i, j) == (double)a(i - 1, j - 1), "resize lost the contents of a matrix"); for (int i = 1; i <= std::min(n, n2); i++) for (int j = 1; j <= std::min(n, n2); j++) c.ok(V(i, j) == (double)q(i - 1, j - 1), "resize lost the contents of a symmetric matrix"); } D = 1.0; V = 2.0; br::same(c, br::from(D), Mat(m2, n2, 1), "filled", 0); br::same(c, br::from(V), Mat(n2, n2, 2), "filled", 0); }
  CV z(x); z.resize(m); c.eq(z.rows(), m, "resized column"); RV t(r); t.resize(n); c.eq(t.columns(), n, "resized row"); z = 1.0; t = 2.0; br::same(c, br::from(z), Mat(m, 1, 1), "filled column", 0); br::same(c, br::from(t), Mat(1, n, 2), "filled row", 0); Matrix E; SM F; CV g; RV h; c.ok(E.rows() == 0 && F.rows() == 0 && g.rows() == 0 && h.columns() == 0, "empty"); E = C; F = U; g = y; h = s; br::same(c, br::from(E), a, "assigned to an empty one", 0); br::same(c, br::from(F), q, "assigned to an empty one", 0); br::same(c, br::from(g), colof(b, 0), "assigned to an empty one", 0); br::same(c, br::from(h), rowof(b, 0), "assigned to an empty one", 0); Matrix G(br::mx(a)); G = T; br::same(c, br::from(G), q2, "symmetric matrix assigned to a matrix of another size", 0);
}
// a symmetric matrix has one element per pair: writing (i,j) writes (j,i)
SCENARIO(symmetric, 4)
{
  int n = 1 + c.choose(4, "n"), i = 1 + c.choose(n, "i"), j = 1 + c.choose(n, "j"); Mat q = low(rnd(genmat(n, n, 5))); SM S = br::sm(q); c.act("write (%d,%d)", i, j); S(i, j) = 42; c.state(mc::H()(n)(i)(j)); c.ok(S(i, j) == 42, "written element");
#ifdef MC_BACKEND_EIGEN
  if (i != j && S(j, i) == (double)q(j - 1, i - 1)) { q(i - 1, j - 1) = 42; br::same(c, br::from(S), q, "rest of the matrix", 0); c.known("eigen-symmetric-one-triangle"); }
#endif
  q(i - 1, j - 1) = q(j - 1, i - 1) = 42; br::same(c, br::from(S), q, "symmetric matrix after writing one element", 0); CV x = br::cv(gencol(n, 2)); br::same(c, br::from(S * x), q * br::from(x), "product after writing one element", 1e-12); Matrix M; M = S; br::same(c, br::from(M), q, "matrix of it", 0);
}

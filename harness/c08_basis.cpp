// Quadrature, basis polynomials and the matrices built from them.
#include "etc/globals.h"
#include "scipy/legendre.h"
#include "scipy/poly.h"
#include "solvers/poly/basis.h"
#include "solvers/poly/evaluations.h"
#include "solvers/weno/weno_matrices.h"
#include "solvers/dg/dg_matrices.h"
#include "h.h"
OPTIONAL poly lagrange(Vecr x, int i); OPTIONAL Vec legval(Vec x, Vec c); OPTIONAL Vec legder(Vec c);
static Vec coef(int n, const std::string &s) { Vec c(n); for (int i = 0; i < n; i++) c(i) = in_any(s + S(i)); return c; }
static double at(const Vec &c, double x) { double r = 0, p = 1; for (int i = 0; i < c.size(); i++) { r = r + c(i) * p; p = p * x; } return r; }
static double integral(const Vec &c, double a, double b) { double r = 0, pa = a, pb = b; for (int i = 0; i < c.size(); i++) { r = r + c(i) * (pb - pa) / (i + 1); pa = pa * a; pb = pb * b; } return r; }
static Vec der(const Vec &c, int k) { Vec r = c; while (k--) { if (r.size() <= 1) return Vec::Zero(1); Vec t(r.size() - 1); for (int i = 0; i < t.size(); i++) t(i) = (i + 1) * r(i + 1); r = t; } return r; }
static Vec mul(const Vec &a, const Vec &b) { Vec r = Vec::Zero(a.size() + b.size() - 1); for (int i = 0; i < a.size(); i++) for (int j = 0; j < b.size(); j++) r(i + j) = r(i + j) + a(i) * b(j); return r; }
UNIT(poly_ops, "poly::eval poly::intt poly::diff poly::operator* poly::operator/ evaluate integrate differentiate multiply") {
  double x = in_any("x"), y = in_any("y"), k = in_any("k"); req_ne(k, 0);
  for (int n = 1; n <= 5; n++) {
    Vec c = coef(n, "c" + S(n) + "_"); poly p(c); std::string s = " degree " + S(n - 1);
    eq(p.eval(x), at(c, x), "value" + s);
    poly P = p.intt(); eq(P.eval(y) - P.eval(x), integral(c, x, y), "integral" + s); eq(P.eval(0), 0, "integral starts at 0" + s);
    for (int d = 1; d < n; d++) eq(p.diff(d).eval(x), at(der(c, d), x), "derivative " + S(d) + s);
    eq(p.diff(0).eval(x), at(c, x), "derivative 0" + s);
    eq((p / k).eval(x), at(c, x) / k, "quotient" + s);
    for (int m = 1; m <= 4; m++) { Vec e = coef(m, "e" + S(n) + S(m) + "_"); poly q(e); eq((p * q).eval(x), at(c, x) * at(e, x), "product" + s + " by " + S(m - 1)); }
    eqm(p.coef, c, "operands are not changed" + s);
  }
}
UNIT(lagrange_any, "lagrange poly::operator* poly::operator/ poly::eval") {
  if (!lagrange) return;
  for (int n = 1; n <= 4; n++) {
    Vec x = coef(n, "n" + S(n) + "_"); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) req_ne(x(i), x(j));
    Vec x0 = x;
    for (int i = 0; i < n; i++) { poly p = lagrange(x, i); for (int j = 0; j < n; j++) eq(p.eval(x(j)), i == j ? 1 : 0, "cardinal " + S(n) + " " + S(i) + "," + S(j)); }
    eqm(x, x0, "nodes are not changed");
  }
}
static double leg(int k, double x) { double a = 1, b = x; if (k == 0) return a; for (int n = 1; n < k; n++) { double c = ((2 * n + 1) * x * b - n * a) / (n + 1); a = b; b = c; } return b; }
UNIT(legendre_series, "legval") {
  if (!legval) return;
  Vec x = coef(2, "x");
  for (int n = 1; n <= 7; n++) { Vec c = coef(n, "c" + S(n) + "_"); Vec r = legval(x, c); for (int i = 0; i < 2; i++) { double s = 0; for (int k = 0; k < n; k++) s = s + c(k) * leg(k, x(i)); eq(r(i), s, "series of " + S(n) + " at " + S(i)); } }
}
UNIT(legendre_derivative, "legder legval") {
  if (!legval || !legder) return;
  double x0 = in_any("x");
  for (int n = 2; n <= 7; n++) { Vec c = coef(n, "c" + S(n) + "_"); double r = deriv([&](double x) { double s = 0; for (int k = 0; k < n; k++) s = s + c(k) * leg(k, x); return s; }, x0); Vec xx(1); xx(0) = x0; Vec cc = c; Vec d = legder(cc); ensure(d.size() == n - 1, "length"); eq(legval(xx, d)(0), r, "derivative of " + S(n)); }
}
static void gauss(int n) {
  auto g = leggauss(n); Vec x = g[0], w = g[1]; ensure(x.size() == n && w.size() == n, "sizes");
  for (int k = 0; k < 2 * n; k++) { double s = 0; for (int i = 0; i < n; i++) { double p = w(i); for (int j = 0; j < k; j++) p = p * x(i); s = s + p; } eq(s, k % 2 ? double(0) : double(2) / double(k + 1), "integrates x^" + S(k)); }
  for (int i = 0; i + 1 < n; i++) gt(x(i + 1), x(i), "increasing" + S(i)); 
  for (int i = 0; i < n; i++) { gt(w(i), 0, "positive weight" + S(i)); gt(x(i), -1, "inside" + S(i)); gt(1, x(i), "inside" + S(i)); }
}
UNIT(gauss_1, "leggauss legcompanion legder legval") { gauss(1); }
UNIT(gauss_2, "leggauss legcompanion legder legval") { gauss(2); }
UNIT(gauss_3, "leggauss legcompanion legder legval") { gauss(3); }
UNIT(nodes, "scaled_nodes scaled_weights leggauss") {
  VecN x = scaled_nodes(), w = scaled_weights();
  for (int k = 0; k < 2 * N; k++) { double s = 0; for (int i = 0; i < N; i++) { double p = w(i); for (int j = 0; j < k; j++) p = p * x(i); s = s + p; } eq(s, double(1) / double(k + 1), "integrates x^" + S(k) + " over the cell"); }
  for (int i = 0; i < N; i++) { gt(w(i), 0, "positive weight" + S(i)); gt(x(i), 0, "inside" + S(i)); gt(1, x(i), "inside" + S(i)); eq(NODES(i), x(i), "NODES" + S(i)); eq(WGHTS(i), w(i), "WGHTS" + S(i)); }
  for (int i = 0; i + 1 < N; i++) gt(x(i + 1), x(i), "increasing" + S(i));
}
static std::vector<poly> any_basis() { std::vector<poly> b; for (int i = 0; i < N; i++) b.push_back(poly(coef(N, "b" + S(i) + "_"))); return b; }
UNIT(basis, "basis_polys lagrange") { auto b = basis_polys(); ensure((int)b.size() == N, "size"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(b[i].eval(NODES(j)), i == j ? 1 : 0, "cardinal " + S(i) + "," + S(j)); }
UNIT(end_values_any, "end_values") { auto b = any_basis(); Mat2_N E = end_values(b); for (int j = 0; j < N; j++) { eq(E(0, j), at(b[j].coef, 0), "at 0 of " + S(j)); eq(E(1, j), at(b[j].coef, 1), "at 1 of " + S(j)); } }
UNIT(derivative_values_any, "derivative_values") { auto b = any_basis(); VecN x; for (int i = 0; i < N; i++) x(i) = in_any("x" + S(i)); MatN_N D = derivative_values(b, x); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(D(i, j), at(der(b[j].coef, 1), x(i)), "derivative of " + S(j) + " at " + S(i)); }
UNIT(stencil_matrices_any, "coefficient_matrices") {
  auto b = any_basis(); auto M = coefficient_matrices(b); int lo[4] = {-(N - 1), 0, -CN2, -FN2}; ensure(M.size() == 4, "four stencils");
  for (int k = 0; k < 4; k++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(M[k](i, j), integral(b[j].coef, lo[k] + i, lo[k] + i + 1), "stencil " + S(k) + " cell " + S(i) + " of " + S(j));
}
UNIT(oscillation_any, "oscillation_indicator") {
  auto b = any_basis(); MatN_N M = oscillation_indicator(b);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double s = 0; for (int a = 1; a < N; a++) s = s + integral(mul(der(b[i].coef, a), der(b[j].coef, a)), 0, 1); eq(M(i, j), s, "indicator " + S(i) + "," + S(j)); }
}
UNIT(dg_products_any, "end_value_products derivative_products") {
  auto b = any_basis(); MatN_N E = end_value_products(b); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(E(i, j), at(b[i].coef, 1) * at(b[j].coef, 1), "end products " + S(i) + "," + S(j));
}
UNIT(dg_products_basis, "derivative_products basis_polys") { // the basis is cardinal at the nodes: <psi_i, psi_j'> over the cell
  auto b = basis_polys(); MatN_N D = derivative_products(b, NODES, WGHTS); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(D(i, j), integral(mul(b[i].coef, der(b[j].coef, 1)), 0, 1), "<psi_" + S(i) + ", psi_" + S(j) + "'>");
}
UNIT(tables, "globals.cpp") {
  auto b = basis_polys(); Mat2_N E = end_values(b); MatN_N D = derivative_values(b, NODES); auto M = coefficient_matrices(b); MatN_N O = oscillation_indicator(b), P = end_value_products(b), Q = derivative_products(b, NODES, WGHTS);
  eqm(ENDVALS, E, "ENDVALS"); eqm(DERVALS, D, "DERVALS"); eqm(SIG, O, "SIG"); eqm(DG_END, P, "DG_END"); eqm(DG_DER, Q, "DG_DER");
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(DG_MAT(i, j), P(i, j) - Q(j, i), "DG_MAT " + S(i) + "," + S(j));
  const Mat *inv[4] = {&mLinv, &mRinv, &mCLinv, &mCRinv}; if (N <= 4) for (int k = 0; k < 4; k++) { Mat I = *inv[k] * Mat(M[k]); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) eq(I(i, j), i == j ? 1 : 0, "inverse of stencil " + S(k) + " " + S(i) + "," + S(j)); }
  const Dec *dec[4] = {&ML, &MR, &MCL, &MCR}; for (int k = 0; k < 4; k++) { Vec r(N); for (int i = 0; i < N; i++) r(i) = in_any("r" + S(k) + S(i)); Vec x = dec[k]->solve(r); Vec y = Mat(M[k]) * x; eqm(y, r, "solver of stencil " + S(k)); }
}
// the space-time systems: (DG_MAT x weights ...) x = b
static void dgu(int nd) {
  const Dec *U[3] = {&DG_U1, &DG_U2, &DG_U3}; int m = N; for (int k = 0; k < nd; k++) m *= N;
  Vec b(m); for (int i = 0; i < m; i++) b(i) = in_any("b" + S(i)); Vec x = U[nd - 1]->solve(b); int sp = m / N;
  for (int t = 0; t < N; t++) for (int s = 0; s < sp; s++) { double w = 1; int q = s; for (int k = 0; k < nd; k++) { w = w * WGHTS(q % N); q /= N; } double r = 0; for (int u = 0; u < N; u++) r = r + DG_MAT(t, u) * w * x(u * sp + s); eq(r, b(t * sp + s), "row " + S(t) + "," + S(s)); }
}
UNIT(dg_system_1, "DG_U1 kron") { dgu(1); }
UNIT(dg_system_2, "DG_U2 kron") { if (N == 2) dgu(2); }
UNIT(kron_any, "kron") {
  int r[3] = {2, 1, 3}, c[3] = {2, 3, 1};
  for (int n = 2; n <= 3; n++) {
    std::vector<Mat> m, m0; for (int k = 0; k < n; k++) { Mat a(r[k], c[k]); for (int i = 0; i < r[k] * c[k]; i++) a.data()[i] = in_any("m" + S(n) + S(k) + S(i)); m.push_back(a); } m0 = m;
    Mat K = kron(m); int R = 1, C = 1; for (int k = 0; k < n; k++) { R *= r[k]; C *= c[k]; } if (K.rows() != R || K.cols() != C) { ensure(false, "shape"); return; }
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { double p = 1; int a = i, b = j; for (int k = n - 1; k >= 0; k--) { p = p * m0[k](a % r[k], b % c[k]); a /= r[k]; b /= c[k]; } eq(K(i, j), p, "kron of " + S(n) + " [" + S(i) + "," + S(j) + "]"); }
  }
}
UNIT(evaluate_2d, "derivs2d endpts2d") {
  MatN2_V q; const int SV = 2; for (int s = 0; s < N * N; s++) for (int v = 0; v < V; v++) q(s, v) = v < SV ? in_any("q" + S(s) + "_" + S(v)) : double(s * V + v);
  MatN2_V q0 = q;
  for (int d = 0; d < 2; d++) {
    MatN2_V r; derivs2d(r, q, d);
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int v = 0; v < V; v++) { double s = 0; for (int k = 0; k < N; k++) s = s + (d == 0 ? DERVALS(a, k) * q0(k * N + b, v) : DERVALS(b, k) * q0(a * N + k, v)); eq(r(a * N + b, v), s, "derivative along " + S(d) + " at " + S(a) + "," + S(b) + "[" + S(v) + "]"); }
    for (int e = 0; e < 2; e++) { MatN_V z; endpts2d(z, q, d, e); for (int a = 0; a < N; a++) for (int v = 0; v < V; v++) { double s = 0; for (int k = 0; k < N; k++) s = s + ENDVALS(e, k) * (d == 0 ? q0(k * N + a, v) : q0(a * N + k, v)); eq(z(a, v), s, "end " + S(e) + " of axis " + S(d) + " node " + S(a) + "[" + S(v) + "]"); } }
    eqm(q, q0, "input is not changed");
  }
}

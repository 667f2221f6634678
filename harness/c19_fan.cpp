// The wave fan at an interface: eigenvectors of the primitive system, and the linearised relation between the traction (and
// temperature) at the interface and the change of state across the outgoing waves.
#include "gpr.h"
#include "system/multi/eigenvecs.h"
#include "system/multi/riemann.h"
struct Fan { Par P; VecV Q; double r, p; Mat X1, X2, X, Rt, L; Vec l; };
static Fan fan() {
  Fan f; f.P = make_par_r(STIFFENED_GAS, false); f.Q = make_Q(); f.r = f.Q(0); 
  if (!is_symbolic()) { f.Q(1) = 10 * f.r; for (int i = 2; i < V; i++) f.Q(i) = .05 * f.Q(i) + (i == 5 || i == 9 || i == 13 ? 1 : 0); req_hyperbolic(f.Q, f.P); }
  f.p = pressure(f.Q, f.P); f.X1 = Xi1(f.r, f.p, f.Q, f.P, 0); f.X2 = Xi2(f.r, f.p, f.Q, f.P, 0); f.X = f.X1 * f.X2;
  Eigen::EigenSolver<Mat> es(f.X); f.Rt = es.eigenvectors().real(); f.l = es.eigenvalues().real(); f.L = f.Rt.inverse(); for (int i = 0; i < n1; i++) req_gt(f.l(i), 0); return f;
}
// Xi R = R diag(l), where R and l come from the library: what is left over is what the library leaves over
static void acoustic() {
  Fan f = fan(); MatV_V R = eigen(f.Q, 0, f.P); Mat E = f.X * f.Rt; for (int k = 0; k < n1; k++) for (int i = 0; i < n1; i++) E(i, k) = E(i, k) - f.Rt(i, k) * f.l(k);
  for (int s = 0; s < 2; s++) for (int k = 0; k < n1; k++) {
    int c = s * n1 + k; double lam = sqrt(f.l(k)); if (s) lam = -lam; Vec st(5), ve(n1); for (int i = 0; i < 5; i++) st(i) = R(i, c); for (int i = 0; i < n1; i++) ve(i) = R(11 + i, c); Vec a = f.X2 * ve, b = f.X1 * st;
    for (int i = 0; i < 5; i++) eq(a(i), lam * st(i), "wave " + S(c) + ": state row " + S(i)); for (int i = 0; i < n1; i++) eq(b(i) - lam * ve(i), E(i, k) / f.l(k) / 2, "wave " + S(c) + ": velocity row " + S(i));
    for (int i = 5; i < 11; i++) eq(R(i, c), 0, "wave " + S(c) + ": row " + S(i)); for (int i = 11 + n1; i < V; i++) eq(R(i, c), 0, "wave " + S(c) + ": row " + S(i));
    double sz = 0; for (int i = 0; i < n1; i++) sz = sz + ve(i) * ve(i); double sw = 0; for (int i = 0; i < n1; i++) sw = sw + f.Rt(i, k) * f.Rt(i, k); eq(sz * f.l(k) * 4, sw, "wave " + S(c) + " is not nothing");
  }
}
UNIT(acoustic_waves, "eigen Xi1 Xi2") { acoustic(); }
// advected fields change neither velocity nor traction (nor temperature)
UNIT(contacts, "eigen") {
  Fan f = fan(); Mat3_3 P1 = dsigmadA(f.Q, f.P, 0), Am = get_A(f.Q), G = Am.transpose() * Am, dG = AdevG(Am), P2, P3; double cs = c_s2(f.r, f.P); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { P2(i, j) = dsigmadA(f.r, cs, Am, G, dG, 0, i, j, 1); P3(i, j) = dsigmadA(f.r, cs, Am, G, dG, 0, i, j, 2); }
  { Mat3_3 t = P1; req_ne(t.determinant(), 0); if (THERMAL) req_ne(Am.determinant(), 0); }
  MatV_V R = eigen(f.Q, 0, f.P); Vec3 sr = dsigmadρ(f.Q, f.P, 0);
  for (int c = 2 * n1; c < V; c++) {
    Vec3 t = -sr * R(0, c); t(0) += R(1, c); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t(i) -= P1(i, j) * R(2 + j, c) + P2(i, j) * R(5 + j, c) + P3(i, j) * R(8 + j, c);
    for (int i = 0; i < 3; i++) eq(t(i), 0, "field " + S(c) + " carries no traction[" + S(i) + "]");
    if (THERMAL) eq(dTdρ(f.r, f.p, f.P) * R(0, c) + dTdp(f.r, f.P) * R(1, c), 0, "field " + S(c) + " carries no temperature");
    for (int i = 11; i < 11 + n1; i++) eq(R(i, c), 0, "field " + S(c) + " carries no velocity[" + S(i) + "]");
  }
}
// The system the change of density, pressure and the first column of the distortion solves: three components of traction, and
// mass with (without heat conduction) entropy, or (with it) temperature and mass. Its solution is the library's.
struct Sys { Mat M, W, Z; };
static Sys interface_system(Fan &f) {
  Mat3_3 P1 = dsigmadA(f.Q, f.P, 0), A = get_A(f.Q); Vec3 sr = dsigmadρ(f.Q, f.P, 0); Sys s; s.M = Mat::Zero(5, 5); s.M(0, 1) = 1; for (int i = 0; i < 3; i++) { s.M(i, 0) = -sr(i); for (int j = 0; j < 3; j++) s.M(i, 2 + j) = -P1(i, j); }
  Mat3_3 I = A.inverse();
  if (THERMAL) { s.M(3, 0) = dTdρ(f.r, f.p, f.P); s.M(3, 1) = dTdp(f.r, f.P); s.M(4, 0) = -1. / f.r; for (int j = 0; j < 3; j++) s.M(4, 2 + j) = I(0, j); s.Z = Mat::Identity(2, 2); s.W = s.M.bottomRows(2); return s; }
  // mass: d rho = rho w_0; entropy: d p = (rho c0^2 e + sigma - rho sigma_rho) . w, where dA = A w; scaled by what the tractions leave of (d rho, d p)
  double c0 = c_0(f.Q, f.P); Mat B = Mat::Zero(2, 3); B(0, 0) = f.r; B.row(1) = sigma(f.Q, f.P, 0) - f.r * sr; B(1, 0) += f.r * c0 * c0; Mat BI = B * I; Mat3_3 J = P1.inverse(); Mat rhs = Mat::Zero(3, 2); rhs(0, 1) = 1; for (int i = 0; i < 3; i++) rhs(i, 0) = -sr(i); Mat C = J * rhs;
  s.Z = Mat::Identity(2, 2); s.Z -= BI * C; s.W = Mat(2, 5); s.W << Mat::Identity(2, 2), -BI; Mat L = s.Z.inverse() * s.W; s.M.bottomRows(2) = L; return s;
}
static void constraints(int sgn) {
  Fan f = fan(); { Mat3_3 a = get_A(f.Q), t = dsigmadA(f.Q, f.P, 0); req_ne(a.determinant(), 0); req_ne(t.determinant(), 0); } Sys s = interface_system(f); { double d = s.Z(0, 0) * s.Z(1, 1) - s.Z(0, 1) * s.Z(1, 0); req_ne(d, 0); }
  Mat b = Mat::Zero(5, n1), x(5, n1); for (int i = 0; i < n1; i++) b(i, i) = 1;
#ifdef SYMBOLIC
  std::vector<double> key; for (int i = 0; i < V; i++) key.push_back(f.Q(i)); for (int i = 0; i < 5; i++) for (int j = 0; j < n1; j++) x(i, j) = any_fn("x" + S(i) + S(j), key); se::register_solve(s.M, b, x);
#else
  x = s.M.colPivHouseholderQr().solve(b);
#endif
  Mat zw = s.Z * s.M.bottomRows(2); for (int i = 0; i < 2; i++) for (int j = 0; j < 5; j++) eq(zw(i, j), s.W(i, j), "lemma: the last two equations are mass and entropy[" + S(i) + "," + S(j) + "]");
  MatV_V R = riemann_constraints(f.Q, double(sgn), f.P);
  for (int c = 0; c < n1; c++) {
    std::string n = "constraint " + S(c); for (int i = 0; i < 5; i++) eq(R(i, c), x(i, c), n + ": state " + S(i));
    for (int i = 5; i < 11; i++) eq(R(i, c), 0, n + ": row " + S(i)); for (int i = 11 + n1; i < V; i++) eq(R(i, c), 0, n + ": row " + S(i));
    // nothing comes in: the invariant of the incoming family is zero
    Vec st = x.col(c), g = f.X1 * st, h = f.L * g; for (int k = 0; k < n1; k++) h(k) = h(k) / sqrt(f.l(k)); Vec v = f.Rt * h; for (int i = 0; i < n1; i++) eq(R(11 + i, c), -sgn * v(i), n + ": velocity " + S(i));
  }
}
UNIT(constraints_left, "riemann_constraints") { constraints(1); }
UNIT(constraints_right, "riemann_constraints") { constraints(-1); }

// Renormalising, rotating and resetting the distortion.
#include "svd3.h"
#include "solvers/utils.h"
static std::vector<Par> pars(int vac) { std::vector<Par> P; for (int m = 0; m <= LSET; m++) { P.push_back(make_par_r(STIFFENED_GAS, false, "_" + S(m))); if (m == vac) P[m].EOS = VACUUM; } return P; }
static double det(const Mat3_3 &A) { return A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)); }
static Mat3_3 Aof(const Vec &u, int k) { Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = u(k * V + 5 + i); return A; }
static Vec grid(int nc, bool posdet) { Vec u(nc * V); for (int i = 0; i < nc * V; i++) u(i) = i % V == 0 ? in_pos("rho" + S(i)) : in_any("u" + S(i)); if (posdet) for (int k = 0; k < nc; k++) req_gt(det(Aof(u, k)), 0); return u; }
static int mat(const Vec &u, int k) { int n = 0; for (int i = V - LSET; i < V; i++) if (u(k * V + i) >= 0) n++; return n; }
static void same(const Vec &u, const Vec &u0, int k, const std::string &n, bool energy = true) { for (int v = 0; v < V; v++) if (v < 5 || v >= 14) if (energy || v != 1) eq(u(k * V + v), u0(k * V + v), n + ": other variables are not changed[" + S(v) + "]"); }
static void renorm(int nc, int vac) {
  auto P = pars(vac); Vec u = grid(nc, true), u0 = u; renorm_distortion(u, P);
  for (int k = 0; k < nc; k++) { int m = mat(u0, k); Mat3_3 A = Aof(u, k), B = Aof(u0, k); same(u, u0, k, "renormalised");
    if (m == vac) { eqm(A, B, "vacuum is not changed"); continue; }
    eq(det(A), u0(k * V) / P[m].ρ0, "determinant is density over reference density"); for (int i = 0; i < 9; i++) for (int j = 0; j < i; j++) eq(A(i / 3, i % 3) * B(j / 3, j % 3), A(j / 3, j % 3) * B(i / 3, i % 3), "distortion is only scaled"); 
    gt(det(A), 0, "orientation kept"); }
}
UNIT(renormalise, "renorm_distortion get_material_index") { renorm(1, -1); }
UNIT(renormalise_vacuum, "renorm_distortion get_material_index") { for (int v = 0; v <= LSET; v++) renorm(1, v); }
UNIT(b_renormalise_grid, "renorm_distortion get_material_index") { renorm(2, 1); }
UNIT(renormalise_empty, "renorm_distortion") { auto P = pars(-1); Vec u = grid(1, false); u(0) = -in_pos("minus"); Vec u0 = u; renorm_distortion(u, P); for (int i = 0; i < V; i++) eq(u(i), u0(i), "cell without mass is not changed"); u(0) = 0; renorm_distortion(u, P); for (int i = 1; i < V; i++) eq(u(i), u0(i), "empty cell is not changed"); }
static void reset(int nc, int vac) {
  auto P = pars(vac); Vec u = grid(nc, false), u0 = u; reset_distortion(u, P);
  for (int k = 0; k < nc; k++) { int m = mat(u0, k); Mat3_3 A = Aof(u, k); same(u, u0, k, "reset", m == vac);
    if (m == vac) { eqm(A, Aof(u0, k), "vacuum is not changed"); continue; }
    double c = A(0, 0); eq(c * c * c, u0(k * V) / P[m].ρ0, "determinant is density over reference density"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) eq(A(i, j), i == j ? c : double(0), "a multiple of the identity");
    VecV q = u.segment<V>(k * V), q0 = u0.segment<V>(k * V); eq(pressure(q, P[m]), pressure(q0, P[m]), "pressure kept"); Mat3_3 s = sigma(q, P[m]); for (int i = 0; i < 9; i++) eq(s(i / 3, i % 3), 0, "no shear stress left"); }
}
UNIT(reset_cell, "reset_distortion E_2A pressure sigma") { reset(1, -1); }
UNIT(reset_vacuum, "reset_distortion") { for (int v = 0; v <= LSET; v++) reset(1, v); }
UNIT(b_reset_grid, "reset_distortion") { reset(2, 1); }
static void rotate(bool mirrored, int vac) {
  auto P = pars(vac); Vec u = grid(1, false); Svd3 d = make_svd("A", mirrored); for (int i = 0; i < 9; i++) u(5 + i) = d.A(i / 3, i % 3); Vec u0 = u; rotate_distortion(u, P);
  int m = mat(u0, 0); same(u, u0, 0, "rotated"); Mat3_3 A = Aof(u, 0); if (m == vac) { eqm(A, d.A, "vacuum is not changed"); return; }
  Mat3_3 G = A.transpose() * A; Mat3_3 T; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T(i, j) = d.s(i) * d.s(i) * d.V(j, i); Mat3_3 H = d.V * T; eqm(G, H, "metric kept"); eq(det(A), d.s(0) * d.s(1) * d.s(2), "determinant kept");
}
UNIT(rotate_cell, "rotate_distortion") { rotate(false, -1); }
UNIT(rotate_mirrored, "rotate_distortion") { rotate(true, -1); }
UNIT(rotate_vacuum, "rotate_distortion") { rotate(false, 1); }
static void cont(bool mirrored) {
  Vec u = grid(1, false); Svd3 d = make_svd("A", mirrored); for (int i = 0; i < 9; i++) u(5 + i) = d.A(i / 3, i % 3); Vec u0 = u; double tol = in_pos("tol"), c3 = cbrt(d.s(0) * d.s(1) * d.s(2)), tr = d.s(0) * d.s(0) + d.s(1) * d.s(1) + d.s(2) * d.s(2);
  bool c = contorted(u, tol); double x = tr / (3 * c3 * c3) - 1; if (c) gt(x, tol, "contorted: stretch exceeds the tolerance"); else ge(tol, x, "not contorted: stretch within the tolerance"); for (int i = 0; i < V; i++) eq(u(i), u0(i), "state is not changed");
}
UNIT(contorted_cell, "contorted") { cont(false); }
UNIT(contorted_mirrored, "contorted") { cont(true); }
UNIT(b_contorted_grid, "contorted") { Vec u = grid(2, true); double tol = in_pos("tol"); Vec a = u.segment<V>(0), b = u.segment<V>(V); bool c = contorted(u, tol), ca = contorted(a, tol), cb = contorted(b, tol); ensure(c == (ca || cb), "some cell is contorted"); }

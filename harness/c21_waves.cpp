// The wave speeds bound every signal: the block the code takes eigenvalues of is the one that carries the
// acoustic, shear and thermal waves of the primitive system matrix.
#include "gpr.h"
static DV tov(const VecV &q) { DV o(V); for (int i = 0; i < V; i++) o[i] = q(i); return o; }
static VecV toV(const DV &x) { VecV q; for (int i = 0; i < V; i++) q(i) = x[i]; return q; }
static void blocks(int k) {
  Par P = make_par_r(EOSES[k], false); VecV W = make_Q("w"); double r = W(0), p = W(1); in_domain(P, r); off_branch(P, r);
  VecV Q = W; Cvec(Q, P); if (THERMAL) req_gt(temperature(Q, P), 0);
  auto dQdP = jac([&](DV y) { VecV q = toV(y); Cvec(q, P); return tov(q); }, tov(W));
  double c02 = (p / (r * r) - dEdρ(Q, P)) / dEdp(Q, P); req_gt(c02, 0); // hyperbolic state: real sound speed
  { double c = c_0(Q, P); eq(c * c, c02, "c_0^2 = (p/rho^2 - E_rho)/E_p"); ge(c, 0, "c_0 >= 0"); }
  if (THERMAL) { double T = temperature(Q, P), ch = c_h(r, T, P); eq(ch * ch, P.cα2 * T / P.cv / (r * r), "c_h"); }
  MatV_V DP = dPdQ(Q, P);
  for (int d = 0; d < 3; d++) {
    MatV_V M = system_matrix(Q, d, P); double vd = W(2 + d);
    MatV_V X; for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) X(i, j) = dQdP[i][j];
    MatV_V MP_ = DP * (M * X); // primitive system matrix
    Mat X1 = Xi1(r, p, Q, P, d), X2 = Xi2(r, p, Q, P, d); int nv = THERMAL ? 4 : 3;
    int st[5] = {0, 1, 5 + d, 8 + d, 11 + d}, ve[4] = {2, 3, 4, 14 + d};
    auto is_st = [&](int i) { for (int x : st) if (x == i) return true; return false; }; auto is_ve = [&](int i) { for (int a = 0; a < nv; a++) if (ve[a] == i) return true; return false; };
    std::string n = "d" + S(d) + " ";
    if (X1.rows() != nv || X1.cols() != 5 || X2.rows() != 5 || X2.cols() != nv) { ensure(false, "shape of Xi"); return; }
    for (int a = 0; a < nv; a++) for (int b = 0; b < 5; b++) { eq(X1(a, b), MP_(ve[a], st[b]), n + "Xi1[" + S(a) + "," + S(b) + "]"); eq(X2(b, a), MP_(st[b], ve[a]), n + "Xi2[" + S(b) + "," + S(a) + "]"); }
    // everything else only advects: v_d on the diagonal, and no coupling back into the wave block
    for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) {
      bool wi = is_st(i) || is_ve(i), wj = is_st(j) || is_ve(j);
      if (wi && wj) { if ((is_st(i) && is_st(j)) || (is_ve(i) && is_ve(j))) eq(MP_(i, j), i == j ? vd : 0 * vd, n + "diagonal block[" + S(i) + "," + S(j) + "]"); }
      else if (!wi) { if (i == j) eq(MP_(i, j), vd, n + "advected[" + S(i) + "]"); else if (!wj && !(i >= 14 && i < 17 && THERMAL)) eq(MP_(i, j), 0, n + "decoupled[" + S(i) + "," + S(j) + "]"); }
      else if (is_st(i)) eq(MP_(i, j), 0, n + "wave block does not see[" + S(i) + "," + S(j) + "]");
    }
    Mat T = thermo_acoustic_tensor(Q, d, P), T2 = X1 * X2; eqm(T, T2, n + "thermo-acoustic tensor");
  }
}
#define FN "Xi1 Xi2 thermo_acoustic_tensor c_0 c_h system_matrix dFdP dPdQ block Cvec"
#define U5(name, fn, call) \
  UNIT(name##_SG, fn) { call(0); } UNIT(name##_SMG, fn) { call(1); } UNIT(name##_JWL, fn) { call(2); } UNIT(name##_CC, fn) { call(3); } UNIT(name##_GR, fn) { call(4); }
U5(blocks, FN, blocks)
static void max_speed(int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV Q = make_Q();
  Mat T = thermo_acoustic_tensor(Q, d, P); double vd = Q(2 + d) / Q(0), c = max_abs_eigs(Q, d, P); auto l = T.eigenvalues();
  double av = vd; if (vd < 0) av = -vd;
  ge(c, av, "not slower than the flow"); double hit = 1;
  for (int i = 0; i < l.size(); i++) { double a = abs(l(i)); double s = av + sqrt(a); ge(c, s, "not slower than wave" + S(i)); hit = hit * (c - s); }
  eq(hit, 0, "the speed of one of the waves");
}
UNIT(max_speed_x, "max_abs_eigs thermo_acoustic_tensor") { max_speed(0); }
UNIT(max_speed_y, "max_abs_eigs thermo_acoustic_tensor") { max_speed(1); }
UNIT(max_speed_z, "max_abs_eigs thermo_acoustic_tensor") { max_speed(2); }

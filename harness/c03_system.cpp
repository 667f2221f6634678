// The system matrix is the Jacobian of the flux plus the non-conservative block; sources are the stated law.
#include "gpr.h"
static VecV flux_of(VecV Q, int d, Par &P) { VecV F = VecV::Zero(); flux(F, Q, d, P); return F; }
static DV tov(const VecV &q) { DV o(V); for (int i = 0; i < V; i++) o[i] = q(i); return o; }
static VecV toV(const DV &x) { VecV q; for (int i = 0; i < V; i++) q(i) = x[i]; return q; }
static void system_unit(int k, bool react) {
  Par P = make_par_r(EOSES[k], react); VecV Q = make_Q(); double r = Q(0); in_domain(P, r); off_branch(P, r);
  if (THERMAL) req_gt(temperature(Q, P), 0);
  DV x = tov(Q);
  // dP/dQ
  MatV_V D = dPdQ(Q, P); auto J = jac([&](DV y) { VecV q = toV(y); Pvec(q, P); return tov(q); }, x);
  for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) eq(D(i, j), J[i][j], "dPdQ[" + S(i) + "," + S(j) + "]");
  // dF/dP: derivative along primitive variables
  VecV W = make_Q("w"); in_domain(P, W(0)); off_branch(P, W(0)); VecV CW = W; Cvec(CW, P); DV w = tov(W);
  for (int d = 0; d < 3; d++) {
    MatV_V A = system_matrix(Q, d, P); auto F = jac([&](DV y) { return tov(flux_of(toV(y), d, P)); }, x);
    MatV_V B = MatV_V::Zero(); block(B, Q, d);
    for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) eq(A(i, j) - B(i, j), F[i][j], "system_matrix" + S(d) + "[" + S(i) + "," + S(j) + "]");
    MatV_V G = dFdP(CW, d, P); auto FP = jac([&](DV y) { VecV q = toV(y); Cvec(q, P); return tov(flux_of(q, d, P)); }, w);
    for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) eq(G(i, j), FP[i][j], "dFdP" + S(d) + "[" + S(i) + "," + S(j) + "]");
  }
}
#define FN "system_matrix dFdP dPdQ flux block pressure dEdρ dEdp dEdA dEdJ sigma dsigmadA dsigmadρ Pvec Cvec"
static void s0(int k) { system_unit(k, false); }
static void s1(int k) { if (MULTI) system_unit(k, true); }
#define U5(name, fn, call) \
  UNIT(name##_SG, fn) { call(0); } UNIT(name##_SMG, fn) { call(1); } UNIT(name##_JWL, fn) { call(2); } UNIT(name##_CC, fn) { call(3); } UNIT(name##_GR, fn) { call(4); }
U5(system, FN, s0)
U5(system_reactive, FN, s1)
UNIT(nonconservative, "block Bdot B0dot B1dot B2dot") {
  Par P = make_par(STIFFENED_GAS); VecV Q = make_Q(), x = make_Q("x"); Vec3 v = get_ρv(Q) / Q(0);
  for (int d = 0; d < 3; d++) {
    MatV_V B = MatV_V::Zero(); block(B, Q, d); VecV y; Bdot(y, Q, x, d, P); VecV Bx = B * x;
    for (int i = 0; i < V; i++) {
      eq(y(i), Bx(i), "Bdot = block x" + S(d) + "[" + S(i) + "]");
      for (int j = 0; j < V; j++) { // v_d dA/dx_d - v_k dA_.k/dx_d e_d ; v_d dphi/dx_d for a level set
        double b = 0; if (i >= 5 && i < 14) { if (j == i) b = v(d); if ((i - 5) % 3 == d && j >= 5 && j < 14 && (j - 5) / 3 == (i - 5) / 3) b = b - v((j - 5) % 3); }
        if (i >= V - LSET && j == i) b = v(d);
        eq(B(i, j), b, "block law" + S(d) + "[" + S(i) + "," + S(j) + "]");
      }
    }
  }
}
static double theta1(VecV Q, Par &P) {
  double r = Q(0); Mat3_3 A = get_A(Q); double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
  req_gt(det, 0); return pow(det, 5. / 3.);
}
UNIT(source_newtonian, "source theta1inv f_body dEdA_s") { // -AdevG/theta with theta = 2 mu / (rho0 |A|^5/3) : independent of the shear speed up to cs2
  Par P = make_par(STIFFENED_GAS); P.n = 1; VecV Q = make_Q(); double a53 = theta1(Q, P); VecV s; source(s, Q, P); Mat3_3 A = get_A(Q); Mat3_3 AG = AdevG(A);
  double th = a53 * P.ρ0 / (2 * P.μ); eq(theta1inv(Q, P), th, "theta1inv");
  eq(s(0), 0, "mass"); eq(s(1), 0, "energy"); for (int i = 0; i < 3; i++) eq(s(2 + i), P.δp(i), "body force" + S(i));
  for (int i = 0; i < 9; i++) eq(s(5 + i), -c_s2(Q(0), P) * th * AG(i / 3, i % 3), "distortion" + S(i));
  for (int i = V - LSET; i < V; i++) eq(s(i), 0, "level set" + S(i));
  if (THERMAL) for (int i = 0; i < 3; i++) eq(s(14 + i), -Q(14 + i) * P.cα2 * temperature(Q, P) / (P.κ * Q(0)), "impulse" + S(i));
  if (MULTI) eq(s(mV), 0, "concentration");
}
UNIT(source_power_law, "theta1inv sigma") {
  Par P = make_par(STIFFENED_GAS); P.POWER_LAW = true; VecV Q = make_Q(); double a53 = theta1(Q, P); Mat3_3 s = sigma(Q, P); double n2 = 0; for (int i = 0; i < 9; i++) n2 = n2 + s(i / 3, i % 3) * s(i / 3, i % 3);
  req_gt(n2, 0); eq(theta1inv(Q, P), a53 * P.ρ0 / 2 * pow(P.μ, -1 / P.n) * pow(sqrt(n2 / 2), (1 - P.n) / P.n), "power law");
}
UNIT(source_bingham, "theta1inv sigma") {
  Par P = make_par(STIFFENED_GAS); P.BINGHAM = true; VecV Q = make_Q(); double a53 = theta1(Q, P); Mat3_3 s = sigma(Q, P); double n2 = 0; for (int i = 0; i < 9; i++) n2 = n2 + s(i / 3, i % 3) * s(i / 3, i % 3);
  req_gt(n2, 0); double sn = sqrt(n2 / 2); double th = theta1inv(Q, P);
  if (sn > P.σY) eq(th, a53 * P.ρ0 / (2 * P.μ) * (1 - P.σY / sn), "yielded"); else eq(th, 0, "rigid below yield");
}
UNIT(source_elastic, "theta1inv source") { Par P = make_par(STIFFENED_GAS); P.SOLID = true; VecV Q = make_Q(); eq(theta1inv(Q, P), 0, "elastic"); VecV s; source(s, Q, P); for (int i = 5; i < 14; i++) eq(s(i), 0, "no relaxation" + S(i)); }
UNIT(source_plastic, "theta1inv sigma_norm") {
  Par P = make_par(STIFFENED_GAS); P.SOLID = true; P.POWER_LAW = true; VecV Q = make_Q(); double a53 = theta1(Q, P); Mat3_3 s = sigma(Q, P);
  // von Mises norm: sqrt(3/2 dev:dev)
  double t = (s(0, 0) + s(1, 1) + s(2, 2)) / 3, n2 = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = s(i, j) - (i == j ? t : 0 * t); n2 = n2 + x * x; }
  req_gt(n2, 0); double sn = sqrt(1.5 * n2); eq(sigma_norm(s), sn, "von Mises norm"); req_gt(1e8, sn); // (the code caps the norm at 1e8)
  eq(theta1inv(Q, P), 3 * a53 / (c_s2(Q(0), P) * P.τ0) * pow(sn / P.σY, P.n), "plastic");
}
UNIT(reaction_laws, "reaction_rate source") {
  if (!MULTI) return; Par P = make_par(STIFFENED_GAS); VecV Q = make_Q(); double l = Q(mV) / Q(0); req_gt(l, 0); req_gt(1, l);
  P.REACTION = 0; double T = temperature(Q, P); double K = reaction_rate(Q, P); VecV s; source(s, Q, P); eq(s(mV), -Q(0) * K, "reactant is consumed at rho K");
  if (T > P.Ti) eq(K, P.Kc * l, "discrete"); else eq(K, 0, "discrete, not ignited");
}
UNIT(reaction_arrhenius, "reaction_rate") {
  if (!MULTI) return; Par P = make_par(STIFFENED_GAS); VecV Q = make_Q(); double l = Q(mV) / Q(0); req_gt(l, 0); P.REACTION = 1; double T = temperature(Q, P); req_gt(T, 0);
  double K = reaction_rate(Q, P); eq(K, P.Bc * l * exp(-P.Ea / (P.Rc * T)), "arrhenius"); ge(K, 0, "reactant is not created");
}
UNIT(reaction_ignition_growth, "reaction_rate") {
  if (!MULTI) return; Par P = make_par(STIFFENED_GAS); VecV Q = make_Q(); double l = Q(mV) / Q(0); req_gt(l, 0); req_gt(1, l); P.REACTION = 2; req_gt(Q(0) / P.ρ0, 1 + P.a); double p = pressure(Q, P); req_gt(p, 0);
  double f = 1 - l, k = 0; if (f < P.φI) k = k + P.I * pow(l, P.b) * pow(Q(0) / P.ρ0 - 1 - P.a, P.x); if (f < P.φG1) k = k + P.G1 * pow(l, P.c) * pow(f, P.d) * pow(p, P.y); if (f > P.φG2) k = k + P.G2 * pow(l, P.e) * pow(f, P.g) * pow(p, P.z);
  eq(reaction_rate(Q, P), k, "ignition and growth");
}
UNIT(reaction_none_left, "reaction_rate") { if (!MULTI) return; Par P = make_par(STIFFENED_GAS); VecV Q = make_Q(); req_ge(0, Q(mV)); P.REACTION = 0; eq(reaction_rate(Q, P), 0, "no reactant, no reaction (discrete)"); P.REACTION = 1; req_gt(temperature(Q, P), 0); eq(reaction_rate(Q, P), 0, "no reactant, no reaction (arrhenius)"); }

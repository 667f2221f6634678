// Conserved and primitive states are two faces of one state.
#include "gpr.h"
static void energy_inverse(int k) {
  Par P = make_par(EOSES[k]); double r = in_pos("rho"), p = in_any("p"), e = in_any("e"); in_domain(P, r);
  eq(pressure_mg(r, E_1(r, p, P), P), p, "pressure(E(p)) = p"); eq(E_1(r, pressure_mg(r, e, P), P), e, "E(pressure(e)) = e");
  // at the reference density and zero reference temperature offset the laws meet their reference curve
  eq(E_1(r, p_ref(r, P), P), e_ref(r, P), "E on the reference curve");
  eq(temperature_mg(r, p_ref(r, P), P), P.Tref * φ(r, P), "T on the reference curve");
  eq(temperature_prim(r, p, P), temperature_mg(r, p, P), "temperature_prim");
  gt(Γ_MG(r, P), 0, "Gamma > 0");
  gt(φ(r, P), 0, "phi > 0");
}
static void round_trip(int k, bool react) {
  Par P = make_par_r(EOSES[k], react); VecV Q = make_Q(); double r = Q(0); in_domain(P, r);
  double p = pressure(Q, P);
  VecV C = Q; Pvec(C, P); // primitive
  eq(C(0), r, "Pvec density"); eq(C(1), p, "Pvec pressure"); for (int i = 0; i < 3; i++) eq(C(2 + i) * r, Q(2 + i), "Pvec velocity" + S(i));
  for (int i = 5; i < 14; i++) eq(C(i), Q(i), "Pvec frame" + S(i));
  for (int i = V - LSET; i < V; i++) eq(C(i), Q(i), "Pvec level set" + S(i));
  if (THERMAL) for (int i = 14; i < 17; i++) eq(C(i) * r, Q(i), "Pvec impulse" + S(i));
  if (MULTI) eq(C(mV) * r, Q(mV), "Pvec concentration");
  VecV B = C; Cvec(B, P); eqm(B, Q, "Cvec(Pvec(Q)) = Q");
  // and the other way: any primitive state
  VecV W = make_Q("w"); in_domain(P, W(0)); VecV D = W; Cvec(D, P);
  eq(D(0), W(0), "Cvec density"); eq(pressure(D, P), W(1), "pressure(Cvec(P)) = p");
  VecV E = D; Pvec(E, P); eqm(E, W, "Pvec(Cvec(P)) = P");
  // the Riemann solver's ordering
  VecV X = Cvec_to_Pvec(Q, P); eq(X(0), r, "ordering rho"); eq(X(1), p, "ordering p");
  Mat3_3 A = get_A(Q); for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) eq(X(2 + 3 * j + i), A(i, j), "ordering A" + S(i) + S(j));
  for (int i = 0; i < 3; i++) eq(X(11 + i) * r, Q(2 + i), "ordering v" + S(i));
  VecV Z = Pvec_to_Cvec(X, P); eqm(Z, Q, "Pvec_to_Cvec(Cvec_to_Pvec(Q)) = Q");
  // total energy = sum of its parts; internal energy is what is left of the total
  Vec3 v = get_ρv(Q) / r; double kin = (v(0) * v(0) + v(1) * v(1) + v(2) * v(2)) / 2; Mat3_3 A2 = A;
  double e = Q(1) / r - kin - C_0(r, P) / 4 * devGsq(A2);
  if (THERMAL) { double j2 = 0; for (int i = 14; i < 17; i++) j2 = j2 + Q(i) * Q(i) / (r * r); e = e - P.cα2 * j2 / 2; }
  if (MULTI && react) e = e - P.Qc * (Q(mV) / r - 1);
  eq(internal_energy(Q, P), e, "internal energy"); eq(E_1(r, p, P), e, "E_1(rho, p(Q)) is the internal energy");
  eq(temperature(Q, P), temperature_mg(r, p, P), "temperature of a state");
}
#define FN1 "E_1 pressure_mg p_ref e_ref Γ_MG temperature_mg temperature_prim φ"
#define FN2 "Pvec Cvec Cvec_to_Pvec Pvec_to_Cvec pressure internal_energy total_energy E_1 E_2A E_2J E_3 E_R temperature get_A get_ρv get_ρJ C_0 devGsq"
#define U5(name, fn, call) \
  UNIT(name##_SG, fn) { call(0); } UNIT(name##_SMG, fn) { call(1); } UNIT(name##_JWL, fn) { call(2); } UNIT(name##_CC, fn) { call(3); } UNIT(name##_GR, fn) { call(4); }
U5(inverse, FN1, energy_inverse)
static void rt0(int k) { round_trip(k, false); }
static void rt1(int k) { if (MULTI) round_trip(k, true); }
U5(roundtrip, FN2, rt0)
U5(roundtrip_reactive, FN2, rt1)
UNIT(kinetic_parts, "E_3 E_2J E_R total_energy") {
  Par P = make_par(STIFFENED_GAS); Vec3 v = make_v("v"), J = make_v("J"); double l = in_any("lambda"), r = in_pos("rho"), p = in_any("p"); Mat3_3 A = make_A();
  eq(E_3(v), (v(0) * v(0) + v(1) * v(1) + v(2) * v(2)) / 2, "E_3"); eq(E_2J(J, P), P.cα2 * (J(0) * J(0) + J(1) * J(1) + J(2) * J(2)) / 2, "E_2J");
  double er = P.Qc * (l - 1); double b = E_1(r, p, P) + E_2A(r, A, P) + E_3(v);
  eq(total_energy(r, p, A, v, P), b, "total"); eq(total_energy(r, p, A, J, v, P), b + E_2J(J, P), "total J"); eq(total_energy(r, p, A, v, l, P), b + er, "total lambda"); eq(total_energy(r, p, A, J, v, l, P), b + E_2J(J, P) + er, "total J lambda");
}

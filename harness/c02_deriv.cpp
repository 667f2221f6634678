// EOS, stress and energy derivative functions are the derivatives of the functions they belong to.
#include "gpr.h"
static void eos_unit(int k) {
  Par P = make_par(EOSES[k]);
  double r = in_pos("rho"), p = in_any("p"), e = in_any("e");
  if (P.EOS == SHOCK_MG) { if (r > P.ρ0) req_ne(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r)); else req_gt(P.ρ0, r); }
  eq(dΓ_MG(r, P), deriv([&](double x) { return Γ_MG(x, P); }, r), "dGamma_drho");
  eq(dp_ref(r, P), deriv([&](double x) { return p_ref(x, P); }, r), "dpref_drho");
  eq(de_ref(r, P), deriv([&](double x) { return e_ref(x, P); }, r), "deref_drho");
  eq(dedρ(r, p, P), deriv([&](double x) { return E_1(x, p, P); }, r), "de_drho");
  eq(dedp(r, P), deriv([&](double x) { return E_1(r, x, P); }, p), "de_dp");
  eq(dTdp(r, P), deriv([&](double x) { return temperature_mg(r, x, P); }, p), "dT_dp");
  eq(dTdρ(r, p, P), deriv([&](double x) { return temperature_mg(x, p, P); }, r), "dT_drho");
  // the reference curve of each isentropic law: de_ref = p_ref/rho^2 drho;  of the shock law: Hugoniot
  double de = deriv([&](double x) { return e_ref(x, P); }, r);
  if (P.EOS != SHOCK_MG) eq(de * r * r, p_ref(r, P), "eref_is_isentrope");
  else { if (r > P.ρ0) eq(e_ref(r, P), p_ref(r, P) / 2 * (1 / P.ρ0 - 1 / r), "eref_is_hugoniot"); else eq(e_ref(r, P), 0, "eref_tension"); }
  // temperature is constant entropy along phi: dphi/drho = Gamma phi / rho
  eq(deriv([&](double x) { return φ(x, P); }, r) * r, Γ_MG(r, P) * φ(r, P), "phi_is_integrating_factor");
  // shear wave speed and its energy coefficient
  eq(dc_s2dρ(r, P), deriv([&](double x) { return c_s2(x, P); }, r), "dcs2_drho");
  eq(dC_0dρ(r, P), deriv([&](double x) { return C_0(x, P); }, r), "dC0_drho");
}
#define FNS "Γ_MG dΓ_MG p_ref dp_ref e_ref de_ref E_1 dedρ dedp temperature_mg φ dTdρ dTdp c_s2 dc_s2dρ C_0 dC_0dρ"
UNIT(eos_SG, FNS) { eos_unit(0); }
UNIT(eos_SMG, FNS) { eos_unit(1); }
UNIT(eos_JWL, FNS) { eos_unit(2); }
UNIT(eos_CC, FNS) { eos_unit(3); }
UNIT(eos_GR, FNS) { eos_unit(4); }
#ifndef PART_EOS
// stress
UNIT(stress, "sigma Sigma dsigmadρ dsigmadA AdevG devGsq c_s2 dc_s2dρ dEdA_s") {
  Par P = make_par(STIFFENED_GAS); VecV Q = make_Q();
  double r = Q(0); DV a(9); for (int i = 0; i < 9; i++) a[i] = Q(5 + i);
  auto sig = [&](DV x) { VecV q = Q; for (int i = 0; i < 9; i++) q(5 + i) = x[i]; Mat3_3 s = sigma(q, P); DV o(9); for (int i = 0; i < 9; i++) o[i] = s(i / 3, i % 3); return o; };
  auto J = jac(sig, a);
  Mat3_3 A = get_A(Q); Mat3_3 G = A.transpose() * A; Mat3_3 AG = AdevG(A); double cs2 = c_s2(r, P);
  Mat3_3 s = sigma(Q, P);
  Mat3_3 dev = G; double t = (G(0, 0) + G(1, 1) + G(2, 2)) / 3; for (int i = 0; i < 3; i++) dev(i, i) = dev(i, i) - t;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double law = 0; for (int k = 0; k < 3; k++) law = law - r * cs2 * G(i, k) * dev(k, j);
    eq(s(i, j), law, "sigma = -rho cs2 G devG" + S(i) + S(j)); eq(s(i, j), s(j, i), "sigma symmetric" + S(i) + S(j));
    double ad = 0; for (int k = 0; k < 3; k++) ad = ad + A(i, k) * dev(k, j); eq(AG(i, j), ad, "AdevG" + S(i) + S(j));
    for (int m = 0; m < 3; m++) for (int n = 0; n < 3; n++) eq(dsigmadA(r, cs2, A, G, AG, i, j, m, n), J[3 * i + j][3 * m + n], "dsigma_dA" + S(i) + S(j) + S(m) + S(n));
  }
  double sq = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sq = sq + dev(i, j) * dev(i, j);
  eq(devGsq(A), sq, "devGsq");
  for (int d = 0; d < 3; d++) {
    Vec3 sd = sigma(Q, P, d), Sd = Sigma(Q, P, d), sr = dsigmadρ(Q, P, d); Mat3_3 M = dsigmadA(Q, P, d); double p = pressure(Q, P);
    for (int i = 0; i < 3; i++) {
      eq(sd(i), s(i, d), "sigma column" + S(d) + S(i)); eq(Sd(i), (i == d ? p : 0 * p) - s(i, d), "Sigma column" + S(d) + S(i));
      double dr = deriv([&](double x) { VecV q = Q; q(0) = x; Mat3_3 y = sigma(q, P); return y(d, i); }, r);
      eq(sr(i), dr, "dsigma_drho" + S(d) + S(i));
      for (int j = 0; j < 3; j++) eq(M(i, j), J[3 * d + i][3 * j + d], "dsigma_dA(d)" + S(d) + S(i) + S(j));
    }
  }
}
// energy: partial derivatives of E(rho,p,A,J,v,lambda)
static void energy_unit(int k) {
  Par P = make_par(EOSES[k]); VecV Q = make_Q(); double r = Q(0); off_branch(P, r); if (P.EOS == SHOCK_MG) req_ne(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r));
  req_ne(P.β, Γ_MG(r, P));
  double p = pressure(Q, P);
  // E as a function of (rho, p, A) at the pressure of the state
  double pp = in_any("pp"); Mat3_3 A0 = get_A(Q); Vec3 v0 = get_ρv(Q) / r;
  auto E = [&](DV x) { Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = x[2 + i]; Vec3 v = v0; return DV{total_energy(x[0], x[1], A, v, P)}; };
  DV x(11); x[0] = r; x[1] = pp; for (int i = 0; i < 9; i++) x[2 + i] = Q(5 + i);
  VecV C = Q; C(1) = pp; C.segment<3>(2) /= r; // primitive state at pressure pp
#if THERMAL_ON
  C.segment<3>(14) /= r;
#endif
  Cvec(C, P); // conserved state whose pressure is pp
  auto J = jac([&](DV x) { Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = x[2 + i]; return DV{E_1(x[0], x[1], P) + E_2A(x[0], A, P)}; }, x);
  eq(dEdρ(C, P), J[0][0], "dE_drho"); eq(dEdp(C, P), J[0][1], "dE_dp");
  Mat3_3 EA = dEdA(C, P), Es = dEdA_s(C, P); double cs2 = c_s2(r, P);
  for (int i = 0; i < 9; i++) eq(EA(i / 3, i % 3), J[0][2 + i], "dE_dA" + S(i));
  // thermodynamic consistency: at constant entropy the energy is e(rho,s)+cs2/4|devG|^2, dE/dA|_s = cs2 A devG, and the pressure is rho^2 dE/drho|_s
  auto Js = jac([&](DV x) { Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = x[2 + i]; return DV{c_s2(x[0], P) / 4 * devGsq(A)}; }, x);
  for (int i = 0; i < 9; i++) eq(Es(i / 3, i % 3), Js[0][2 + i], "dE_dA at constant s" + S(i));
  double pMG = pp - r * r * Js[0][0]; Mat3_3 A = A0;
  eq(E_1(r, pMG, P) + c_s2(r, P) / 4 * devGsq(A), E_1(r, pp, P) + E_2A(r, A, P), "E(rho,p,A) = E(rho,s,A)");
}
#define FE "dEdρ dEdp dEdA dEdA_s E_1 E_2A total_energy Cvec pressure internal_energy pressure_mg"
UNIT(energy_SG, FE) { energy_unit(0); }
UNIT(energy_SMG, FE) { energy_unit(1); }
UNIT(energy_JWL, FE) { energy_unit(2); }
UNIT(energy_CC, FE) { energy_unit(3); }
UNIT(energy_GR, FE) { energy_unit(4); }
#endif

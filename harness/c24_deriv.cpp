// Mixtures of two equations of state: derivatives of the energy along the closure.
#include "gpr.h"
#include "contract_mixture.h"
static void derivs(int k, int l) {
  if (!MULTI) return;
  Par P = make_par_r(EOSES[k], true); P.MULTI = true; P.MP2 = make_par(EOSES[l], "_2"); Params &M = P.MP2;
  double lam = in_range("lambda", 0, 1), r1 = in_pos("r1"), r2 = in_pos("r2"), p = in_any("p"); req_gt(lam, 0); req_gt(1, lam);
  if (P.EOS == SHOCK_MG) { if (r1 > P.ρ0) req_ne(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r1)); else req_gt(P.ρ0, r1); }
  if (M.EOS == SHOCK_MG) { if (r2 > M.ρ0) req_ne(1 / M.ρ0, M.s * (1 / M.ρ0 - 1 / r2)); else req_gt(M.ρ0, r2); }
  double r = 1 / (lam / r1 + (1 - lam) / r2);
  VecV Q = make_Q(); Q(0) = r; Q(mV) = lam * r; off_branch(P, r);
  mix_p = p; mix_r1 = r1; mix_r2 = r2; mix_calls = 0;
  double T1r = deriv([&](double x) { return temperature_mg(x, p, P); }, r1), T2r = deriv([&](double x) { return temperature_mg(x, p, M); }, r2);
  double T1p = deriv([&](double x) { return temperature_mg(r1, x, P); }, p), T2p = deriv([&](double x) { return temperature_mg(r2, x, M); }, p);
  double e1r = deriv([&](double x) { return E_1(x, p, P); }, r1), e2r = deriv([&](double x) { return E_1(x, p, M); }, r2);
  double e1p = deriv([&](double x) { return E_1(r1, x, P); }, p), e2p = deriv([&](double x) { return E_1(r2, x, M); }, p);
  // lam/r1 + (1-lam)/r2 = 1/r and T1 = T2, differentiated
  double a = lam / (r1 * r1), b = (1 - lam) / (r2 * r2), det = a * T2r + b * T1r; req_ne(det, 0);
  Mat3_3 A = get_A(Q); double C = dC_0dρ(r, P) / 4 * devGsq(A); // both proved in C02
  double Er = (lam * e1r * T2r + (1 - lam) * e2r * T1r) / (det * r * r) + C;
  double d1 = b * (T2p - T1p) / det, d2 = a * (T1p - T2p) / det;
  double Ep = lam * (e1p + e1r * d1) + (1 - lam) * (e2p + e2r * d2);
  eq(dEdρ(Q, P), Er, "dE/drho at fixed pressure, distortion and concentration"); eq(dEdp(Q, P), Ep, "dE/dp at fixed density, distortion and concentration");
  ensure(mix_calls > 0, "the closure is used");
  eq(pressure(Q, P), p, "pressure of the mixture");
  if (k + l == 0 || is_symbolic() == false) { double c = (p / (r * r) - Er) / Ep; if (is_symbolic()) { req_gt(c, 0); double s = c_0(Q, P); eq(s * s, c, "sound speed of the mixture"); } else if (c > 0) { double s = c_0(Q, P); eq(s * s, c, "sound speed of the mixture"); } }
}
UNIT(deriv_SG_SG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(0, 0); }
UNIT(deriv_SG_SMG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(0, 1); }
UNIT(deriv_SG_JWL, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(0, 2); }
UNIT(deriv_SG_CC, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(0, 3); }
UNIT(deriv_SG_GR, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(0, 4); }
UNIT(deriv_SMG_SG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(1, 0); }
UNIT(deriv_SMG_SMG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(1, 1); }
UNIT(deriv_SMG_JWL, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(1, 2); }
UNIT(deriv_SMG_CC, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(1, 3); }
UNIT(deriv_SMG_GR, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(1, 4); }
UNIT(deriv_JWL_SG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(2, 0); }
UNIT(deriv_JWL_SMG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(2, 1); }
UNIT(deriv_JWL_JWL, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(2, 2); }
UNIT(deriv_JWL_CC, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(2, 3); }
UNIT(deriv_JWL_GR, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(2, 4); }
UNIT(deriv_CC_SG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(3, 0); }
UNIT(deriv_CC_SMG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(3, 1); }
UNIT(deriv_CC_JWL, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(3, 2); }
UNIT(deriv_CC_CC, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(3, 3); }
UNIT(deriv_CC_GR, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(3, 4); }
UNIT(deriv_GR_SG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(4, 0); }
UNIT(deriv_GR_SMG, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(4, 1); }
UNIT(deriv_GR_JWL, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(4, 2); }
UNIT(deriv_GR_CC, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(4, 3); }
UNIT(deriv_GR_GR, "dEdρ dEdp pressure c_0 dedρ dedp dTdρ dTdp") { derivs(4, 4); }

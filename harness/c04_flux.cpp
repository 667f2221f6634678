// The flux is the physical law in every direction, and it commutes with relabelling and reflecting the axes.
#include "gpr.h"
static VecV F_(VecV Q, int d, Par &P) { VecV F = VecV::Zero(); flux(F, Q, d, P); return F; }
static void law(int k, bool react) {
  Par P = make_par_r(EOSES[k], react); VecV Q = make_Q(); double r = Q(0); in_domain(P, r);
  double p = pressure(Q, P); Mat3_3 A = get_A(Q), s = sigma(Q, P); Vec3 v = get_ρv(Q) / r;
  for (int d = 0; d < 3; d++) {
    VecV F = F_(Q, d, P); std::string n = "F" + S(d) + " ";
    eq(F(0), r * v(d), n + "mass");
    double e = Q(1) * v(d) + p * v(d); for (int k = 0; k < 3; k++) e = e - s(d, k) * v(k);
    if (THERMAL) e = e + P.cα2 * temperature(Q, P) * Q(14 + d) / r;
    eq(F(1), e, n + "energy");
    for (int k = 0; k < 3; k++) eq(F(2 + k), r * v(k) * v(d) + (k == d ? p : 0 * p) - s(d, k), n + "momentum" + S(k));
    for (int m = 0; m < 3; m++) for (int k = 0; k < 3; k++) { double w = 0; if (k == d) for (int j = 0; j < 3; j++) w = w + A(m, j) * v(j); eq(F(5 + 3 * m + k), w, n + "distortion" + S(m) + S(k)); }
    if (THERMAL) for (int k = 0; k < 3; k++) eq(F(14 + k), Q(14 + k) * v(d) + (k == d ? temperature(Q, P) : 0 * p), n + "impulse" + S(k));
    if (MULTI) eq(F(mV), Q(mV) * v(d), n + "concentration");
    for (int i = V - LSET; i < V; i++) eq(F(i), 0, n + "level set" + S(i));
    // flux adds into its first argument
    VecV G = make_Q("g"), G0 = G; flux(G, Q, d, P); for (int i = 0; i < V; i++) eq(G(i) - G0(i), F(i), n + "adds" + S(i));
  }
}
// signed axis relabelling: e_i -> sg(i) e_pm(i)
static VecV relabel(const VecV &Q, const int *pm, const int *sg) {
  VecV R = Q;
  for (int i = 0; i < 3; i++) { R(2 + pm[i]) = sg[i] * Q(2 + i); if (THERMAL) R(14 + pm[i]) = sg[i] * Q(14 + i); for (int m = 0; m < 3; m++) R(5 + 3 * pm[m] + pm[i]) = sg[m] * sg[i] * Q(5 + 3 * m + i); }
  return R;
}
static void covariance(int which) {
  static const int PM[4][3] = {{1, 2, 0}, {1, 0, 2}, {0, 2, 1}, {0, 1, 2}}; static const int SG[4][3] = {{1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {-1, 1, -1}};
  Par P = make_par_r(STIFFENED_GAS, false); VecV Q = make_Q(); VecV R = relabel(Q, PM[which], SG[which]); Par PR = P; for (int i = 0; i < 3; i++) PR.δp(PM[which][i]) = SG[which][i] * P.δp(i);
  VecV x = make_Q("x"), xr = relabel(x, PM[which], SG[which]);
  for (int d = 0; d < 3; d++) {
    VecV a = F_(R, PM[which][d], P), b = relabel(F_(Q, d, P), PM[which], SG[which]); int sg = SG[which][d];
    for (int i = 0; i < V; i++) eq(sg * a(i), b(i), "F relabelled d" + S(d) + "[" + S(i) + "]");
    VecV c, e; Bdot(c, R, xr, PM[which][d], P); Bdot(e, Q, x, d, P); e = relabel(e, PM[which], SG[which]);
    for (int i = 0; i < V; i++) eq(sg * c(i), e(i), "B relabelled d" + S(d) + "[" + S(i) + "]");
  }
  Mat3_3 A = get_A(Q); double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)); req_gt(det, 0); P.n = 1; PR.n = 1;
  VecV s1, s2; source(s1, R, PR); source(s2, Q, P); s2 = relabel(s2, PM[which], SG[which]); eqm(s1, s2, "source relabelled");
}
#define FN "flux pressure sigma temperature get_A get_ρv get_ρJ"
#define U5(name, fn, call) \
  UNIT(name##_SG, fn) { call(0); } UNIT(name##_SMG, fn) { call(1); } UNIT(name##_JWL, fn) { call(2); } UNIT(name##_CC, fn) { call(3); } UNIT(name##_GR, fn) { call(4); }
static void l0(int k) { law(k, false); }
static void l1(int k) { if (MULTI) law(k, true); }
U5(law, FN, l0)
U5(law_reactive, FN, l1)
UNIT(cyclic, "flux Bdot source") { covariance(0); }
UNIT(swap_xy, "flux Bdot source") { covariance(1); }
UNIT(swap_yz, "flux Bdot source") { covariance(2); }
UNIT(mirror, "flux Bdot source") { covariance(3); }

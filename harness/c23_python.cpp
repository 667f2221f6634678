// The Python package agrees with the solver: the same curves, energies and stresses, the states asked for, the materials asked for.
// py_gen.h is transcribed from code/python/gpr by engine/pyx.py on every run.
#include "gpr.h"
static bool py_raised(const char *m) { ensure(false, std::string("returns a value (") + m + ")"); return false; }
static bool py_absent(const char *) { assume(false); return false; } // not transcribed: no obligations (the run reports it)
struct Hyp { double ρ0, α, β, γ, cv, T0, K0, b02; };
static VecV state_of(const double *q, int n) { VecV Q; for (int i = 0; i < V; i++) Q(i) = i < n ? q[i] : 0.; return Q; }
static double py_pressure(const double *q, int n, Par &P) { VecV Q = state_of(q, n); return pressure(Q, P); }
static double py_temperature(const double *q, int n, Par &P) { VecV Q = state_of(q, n); return temperature(Q, P); }
#include "py_gen.h"
#define TAB(f) {py_##f##_SG, py_##f##_SMG, py_##f##_JWL, py_##f##_CC, py_##f##_GR}
#define FIVE(name, fn) \
  UNIT(name##_SG, fn) { name(0); } UNIT(name##_SMG, fn) { name(1); } UNIT(name##_JWL, fn) { name(2); } UNIT(name##_CC, fn) { name(3); } UNIT(name##_GR, fn) { name(4); }
typedef bool (*F1)(double, Par &, double *); typedef bool (*F2)(double, double, Par &, double *);
static double v1(F1 f, double r, Par &P) { double x[1]; f(r, P, x); return x[0]; }
static double v2(F2 f, double r, double p, Par &P) { double x[1]; f(r, p, P, x); return x[0]; }
// the curves of each law
static F1 fΓ[] = TAB(Γ_MG), fp[] = TAB(p_ref), fe[] = TAB(e_ref), fdΓ[] = TAB(dΓ_MG), fdp[] = TAB(dp_ref), fde[] = TAB(de_ref), fφ[] = TAB(φ), fdedp[] = TAB(dedp), fdTdp[] = TAB(dTdp), fc2[] = TAB(c_s2), fdc2[] = TAB(dc_s2dρ), fC0[] = TAB(C_0), fdC0[] = TAB(dC_0dρ), fdEdp[] = TAB(dEdp);
static F2 fE[] = TAB(internal_energy), fP[] = TAB(pressure), fT[] = TAB(temperature), fsT[] = TAB(stateT), fdedr[] = TAB(dedρ), fdTdr[] = TAB(dTdρ);
static void curves(int k) {
  Par P = make_par(EOSES[k]); double r = in_pos("rho"), p = in_any("p"), e = in_any("e"); in_domain(P, r); off_branch(P, r);
  eq(v1(fΓ[k], r, P), Γ_MG(r, P), "Gamma"); eq(v1(fp[k], r, P), p_ref(r, P), "p_ref"); eq(v1(fe[k], r, P), e_ref(r, P), "e_ref"); eq(v1(fφ[k], r, P), φ(r, P), "phi");
  eq(v2(fE[k], r, p, P), E_1(r, p, P), "internal energy"); eq(v2(fP[k], r, e, P), pressure_mg(r, e, P), "pressure"); eq(v2(fT[k], r, p, P), temperature_mg(r, p, P), "temperature"); eq(v2(fsT[k], r, p, P), temperature_mg(r, p, P), "temperature of a state");
  eq(v2(fP[k], r, v2(fE[k], r, p, P), P), p, "pressure(E(p)) = p");
  eq(v1(fc2[k], r, P), c_s2(r, P), "c_s2"); eq(v1(fC0[k], r, P), C_0(r, P), "C_0");
}
static void derivatives(int k) {
  Par P = make_par(EOSES[k]); double r = in_pos("rho"), p = in_any("p"); in_domain(P, r); off_branch(P, r);
  auto D = [&](F1 f) { return deriv([&](double x) { return v1(f, x, P); }, r); };
  eq(v1(fdΓ[k], r, P), D(fΓ[k]), "dGamma"); eq(v1(fdp[k], r, P), D(fp[k]), "dp_ref"); eq(v1(fde[k], r, P), D(fe[k]), "de_ref"); eq(v1(fdc2[k], r, P), D(fc2[k]), "dc_s2"); eq(v1(fdC0[k], r, P), D(fC0[k]), "dC_0");
  eq(v2(fdedr[k], r, p, P), deriv([&](double x) { return v2(fE[k], x, p, P); }, r), "de/drho"); eq(v1(fdedp[k], r, P), deriv([&](double x) { return v2(fE[k], r, x, P); }, p), "de/dp"); eq(v1(fdEdp[k], r, P), v1(fdedp[k], r, P), "dE/dp");
  eq(v2(fdTdr[k], r, p, P), deriv([&](double x) { return v2(fT[k], x, p, P); }, r), "dT/drho"); eq(v1(fdTdp[k], r, P), deriv([&](double x) { return v2(fT[k], r, x, P); }, p), "dT/dp");
}
FIVE(curves, "mg.Γ_MG mg.p_ref mg.e_ref mg.φ mg.internal_energy mg.pressure mg.temperature shear.c_s2 shear.C_0")
FIVE(derivatives, "mg.dΓ_MG mg.dp_ref mg.de_ref mg.dedρ mg.dedp mg.dTdρ mg.dTdp shear.dc_s2dρ shear.dC_0dρ derivatives.dEdp")
typedef bool (*FA)(double, const double *, Par &, double *); typedef bool (*FpA)(double, double, const double *, Par &, double *);
static FA fE2A[] = TAB(E_2A), fdEdA[] = TAB(dEdA), fdEdAs[] = TAB(dEdA_s); static FpA fdEdr[] = TAB(dEdρ), fc0[] = TAB(c_0);
static void shears(int k) {
  Par P = make_par(EOSES[k]); VecV Q = make_Q(); double r = Q(0); in_domain(P, r); off_branch(P, r); req_ne(Γ_MG(r, P), 0);
  double a[9]; Reals av(9); for (int i = 0; i < 9; i++) av[i] = a[i] = Q(5 + i); double x[9], y[9]; Mat3_3 A = get_A(Q); double p = pressure(Q, P);
  fE2A[k](r, a, P, x); eq(x[0], E_2A(r, A, P), "E_2A");
  auto J = jac([&](Reals z) { double b[9], o[1]; for (int i = 0; i < 9; i++) b[i] = z[i]; fE2A[k](r, b, P, o); return Reals{o[0]}; }, av);
  fdEdA[k](r, a, P, x); fdEdAs[k](r, a, P, y); Mat3_3 s = dEdA_s(Q, P);
  for (int i = 0; i < 9; i++) { eq(x[i], J[0][i], S("dE/dA", i)); eq(y[i], s(i / 3, i % 3), S("dE/dA at constant entropy", i)); }
  fdEdr[k](r, p, a, P, x); eq(x[0], dEdρ(Q, P), "dE/drho");
  fc0[k](r, p, a, P, x); double c = c_0(Q, P); req_ge(c * c, 0); eq(x[0] * x[0], c * c, "c_0"); ge(x[0], 0, "c_0 is not negative");
}
FIVE(shears, "eos.E_2A derivatives.dEdA derivatives.dEdA_s derivatives.dEdρ wavespeeds.c_0")
// states built from primitive variables
typedef bool (*FC)(double, double, const double *, Par &, double *); typedef bool (*FCA)(double, double, const double *, Par &, const double *, double *);
typedef bool (*FCAJ)(double, double, const double *, Par &, const double *, const double *, double *); typedef bool (*FCAl)(double, double, const double *, Par &, const double *, double, double *);
typedef bool (*FCAJl)(double, double, const double *, Par &, const double *, const double *, double, double *);
#define CTAB(f) static FC f##0[] = TAB(f); static FCA f##1[] = TAB(f##A); static FCAJ f##2[] = TAB(f##AJ); static FCAl f##3[] = TAB(f##Al); static FCAJl f##4[] = TAB(f##AJl);
CTAB(Cvec) CTAB(total) CTAB(statep)
static void initial(int k) {
  Par P = make_par_r(EOSES[k], MULTI); double r = in_pos("rho"), p = in_any("p"), l = in_any("lambda"); in_domain(P, r); req_ne(Γ_MG(r, P), 0);
  double v[3], J[3], a[9]; for (int i = 0; i < 3; i++) { v[i] = in_any(S("v", i)); J[i] = in_any(S("J", i)); } for (int i = 0; i < 9; i++) a[i] = in_any(S("A", i));
  double q[18], e[1], z[1]; Vec3 vv(v[0], v[1], v[2]), jj(J[0], J[1], J[2]); Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i];
  for (int w = 0; w < 5; w++) {
    int n = w == 0 ? 5 : w == 1 ? 14 : w == 2 ? 17 : w == 3 ? 15 : 18; bool hasJ = w == 2 || w == 4, hasl = w >= 3; std::string nm = S("variant ", w) + " ";
    if (w == 0) Cvec0[k](r, p, v, P, q), total0[k](r, p, v, P, e); else if (w == 1) Cvec1[k](r, p, v, P, a, q), total1[k](r, p, v, P, a, e); else if (w == 2) Cvec2[k](r, p, v, P, a, J, q), total2[k](r, p, v, P, a, J, e);
    else if (w == 3) Cvec3[k](r, p, v, P, a, l, q), total3[k](r, p, v, P, a, l, e); else Cvec4[k](r, p, v, P, a, J, l, q), total4[k](r, p, v, P, a, J, l, e);
    double E = w == 0 ? E_1(r, p, P) + E_3(vv) : hasJ && hasl ? total_energy(r, p, A, jj, vv, l, P) : hasJ ? total_energy(r, p, A, jj, vv, P) : hasl ? total_energy(r, p, A, vv, l, P) : total_energy(r, p, A, vv, P);
    eq(e[0], E, nm + "total energy"); eq(q[0], r, nm + "density"); eq(q[1], r * E, nm + "energy"); for (int i = 0; i < 3; i++) eq(q[2 + i], r * v[i], nm + S("momentum", i));
    if (w) for (int i = 0; i < 9; i++) eq(q[5 + i], a[i], nm + S("distortion", i));
    if (hasJ) for (int i = 0; i < 3; i++) eq(q[14 + i], r * J[i], nm + S("impulse", i));
    if (hasl) eq(q[n - 1], r * l, nm + "concentration");
    if (w == 0) statep0[k](r, E, v, P, z); else if (w == 1) statep1[k](r, E, v, P, a, z); else if (w == 2) statep2[k](r, E, v, P, a, J, z); else if (w == 3) statep3[k](r, E, v, P, a, l, z); else statep4[k](r, E, v, P, a, J, l, z);
    eq(z[0], p, nm + "pressure(E(p)) = p");
    // the solver reads the state as it was meant
    if (w && hasJ == THERMAL && hasl == MULTI) {
      VecV Q = state_of(q, n); eq(pressure(Q, P), p, "pressure the solver sees"); eq(temperature(Q, P), temperature_mg(r, p, P), "temperature the solver sees");
    }
  }
}
FIVE(initial, "structures.Cvec eos.total_energy state.pressure")
// stress and heat flux
UNIT(stress, "state.sigma state.Sigma state.dsigmadA state.dsigmadAdd state.dsigmadρ functions.*") {
  Par P = make_par(GODUNOV_ROMENSKI); VecV Q = make_Q(); double r = Q(0), a[9], x[81], sg[9], b[9]; Reals av(9); for (int i = 0; i < 9; i++) av[i] = a[i] = Q(5 + i);
  Mat3_3 s = sigma(Q, P); py_sigma(r, a, P, sg); for (int i = 0; i < 9; i++) eq(sg[i], s(i / 3, i % 3), S("sigma", i));
  double p = in_any("p"); py_Sigma(p, r, a, P, x); for (int i = 0; i < 9; i++) eq(x[i], (i % 4 ? 0 * p : p) - s(i / 3, i % 3), S("Sigma", i));
  py_dsigmadρ(r, a, P, x); for (int d = 0; d < 3; d++) { Vec3 c = dsigmadρ(Q, P, d); for (int i = 0; i < 3; i++) eq(x[3 * d + i], c(i), S(S("dsigma/drho", d), i)); }
  auto J = jac([&](Reals z) { double y[9], o[9]; for (int i = 0; i < 9; i++) y[i] = z[i]; py_sigma(r, y, P, o); return Reals(o, o + 9); }, av);
  py_dsigmadA(r, a, P, x); for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) eq(x[9 * i + j], J[i][j], S(S("dsigma/dA", i) + ",", j));
  bool (*dd[])(double, const double *, Par &, double *) = {py_dsigmadAdd_0, py_dsigmadAdd_1, py_dsigmadAdd_2};
  for (int d = 0; d < 3; d++) { dd[d](r, a, P, x); Mat3_3 M = dsigmadA(Q, P, d); for (int i = 0; i < 9; i++) eq(x[i], M(i / 3, i % 3), S(S("dsigma/dA column", d) + ",", i)); }
  Mat3_3 A = get_A(Q), G = A.transpose() * A, B = A * A.transpose(); py_gram(a, x); for (int i = 0; i < 9; i++) eq(x[i], G(i / 3, i % 3), S("gram", i)); py_gram_rev(a, x); for (int i = 0; i < 9; i++) eq(x[i], B(i / 3, i % 3), S("gram_rev", i));
  double t = a[0] + a[4] + a[8]; py_tr(a, x); eq(x[0], t, "trace"); py_det3(a, x); eq(x[0], A.determinant(), "det3"); py_I_3(a, x); eq(x[0], A.determinant(), "I_3"); py_I_1(a, x); eq(x[0], t, "I_1");
  double q2 = 0, t2 = 0; for (int i = 0; i < 9; i++) q2 = q2 + a[i] * a[i]; for (int i = 0; i < 3; i++) t2 = t2 + G(i, i); py_L2_2D(a, x); eq(x[0], q2, "L2_2D"); py_I_2(a, x); eq(2 * x[0], t * t - q2, "I_2"); // the first two invariants, symmetric or not
  Mat3_3 D = A; for (int i = 0; i < 3; i++) D(i, i) = D(i, i) - t / 3; py_dev(a, b); for (int i = 0; i < 9; i++) eq(b[i], D(i / 3, i % 3), S("dev", i));
  Mat3_3 GD = A * D; py_GdevG(a, x); for (int i = 0; i < 9; i++) eq(x[i], GD(i / 3, i % 3), S("GdevG", i)); double w[9]; for (int i = 0; i < 9; i++) w[i] = in_any(S("w", i));
  Mat3_3 W; for (int i = 0; i < 9; i++) W(i / 3, i % 3) = w[i]; Mat3_3 WD = W * D; py_AdevG(w, a, x); for (int i = 0; i < 9; i++) eq(x[i], WD(i / 3, i % 3), S("AdevG", i));
  py_L2_1D(a, x); eq(x[0], a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "L2_1D");
  py_sigma_norm(sg, x); double n2 = 0, tr = (sg[0] + sg[4] + sg[8]) / 3; for (int i = 0; i < 9; i++) { double y = sg[i] - (i % 4 ? 0 * tr : tr); n2 = n2 + y * y; } eq(x[0] * x[0], 1.5 * n2, "sigma_norm");
}
UNIT(reorder, "functions.reorder") { // from (rho, p, A by columns, v, J) to (rho, p, v, A by rows, J)
  double x[17], y[17]; for (int i = 0; i < 17; i++) x[i] = in_any(S("x", i));
  for (int n : {14, 17}) {
    if (n == 14) py_reorder14(x, y); else py_reorder17(x, y);
    for (int i = 0; i < n; i++) eq(y[i], x[i < 2 ? i : i < 5 ? i + 9 : i < 14 ? 2 + (i - 5) / 3 + 3 * ((i - 5) % 3) : i], S(S("reorder", n) + ",", i));
  }
}
UNIT(heat, "eos.E_2J eos.E_3 eos.E_R derivatives.dEdJ state.heat_flux wavespeeds.c_h sources.theta2inv sources.f_δp") {
  Par P = make_par(GODUNOV_ROMENSKI); double r = in_pos("rho"), T = in_pos("T"), l = in_any("lambda"), j[3], x[3]; Vec3 J = make_v("J"); for (int i = 0; i < 3; i++) j[i] = J(i);
  py_E_2J(j, P, x); eq(x[0], E_2J(J, P), "E_2J"); py_E_3(j, x); eq(x[0], E_3(J), "E_3"); py_E_R(l, P, x); eq(x[0], P.Qc * (l - 1), "E_R");
  py_dEdJ(j, P, x); for (int i = 0; i < 3; i++) eq(x[i], P.cα2 * J(i), S("dE/dJ", i)); Vec3 q = heat_flux(T, J, P); py_heat_flux(T, j, P, x); for (int i = 0; i < 3; i++) eq(x[i], q(i), S("heat flux", i));
  py_c_h(r, T, P, x); eq(x[0], c_h(r, T, P), "c_h"); py_theta2inv(r, T, P, x); eq(x[0] * P.κ * r, T, "theta2inv"); py_f_δp(P, x); for (int i = 0; i < 3; i++) eq(x[i], P.δp(i), S("body force", i));
}
// relaxation and reaction rates (stresses below the cap of the plastic law)
static void relax(int k) {
  Par P = make_par(GODUNOV_ROMENSKI); P.POWER_LAW = k == 1 || k == 3; P.SOLID = k >= 2; VecV Q = make_Q(); double r = Q(0), a[9], x[9], u[16];
  for (int i = 0; i < 9; i++) a[i] = Q(5 + i);
  Mat3_3 s = sigma(Q, P); Mat3_3 A = get_A(Q); req_gt(A.determinant(), 0);
  if (k == 3) { req_gt(1e8, sigma_norm(s)); } if (k == 1) { req_gt(s.norm(), 0); req_gt(1e8, s.norm() / sqrt(2.)); }
  decltype(&py_theta1inv_fluid) f[] = {py_theta1inv_fluid, py_theta1inv_power, py_theta1inv_elastic, py_theta1inv_plastic}; decltype(&py_State_θ1_fluid) g[] = {py_State_θ1_fluid, py_State_θ1_power, py_State_θ1_elastic, py_State_θ1_plastic};
  f[k](r, a, P, x); eq(x[0], theta1inv(Q, P), "theta1inv"); for (int i = 0; i < 16; i++) u[i] = i < 14 ? Q(i) : 0.; P.cα2 = 0; g[k](u, P, x); eq(x[0], theta1inv(Q, P), "theta1inv of a state");
  if (k == 3) { py_State_plastic_deformation(u, P, x); eq(x[0] * P.σY, sigma_norm(s), "plastic deformation"); }
}
#define RF "sources.theta1inv State.θ1_1 State.plastic_deformation"
UNIT(relax_fluid, RF) { relax(0); } UNIT(relax_power, RF) { relax(1); } UNIT(relax_elastic, RF) { relax(2); } UNIT(relax_plastic, RF) { relax(3); }
static void react(int k) {
  if (!MULTI) return;
  Par P = make_par(GODUNOV_ROMENSKI); P.REACTION = k; double l = in_pos("l1"); l = l / (1 + in_pos("l2") + l); double r = in_pos("rho"), x[1], u[17];
  VecV Q; for (int i = 0; i < 17; i++) u[i] = i ? in_any(S("q", i)) : r; u[mV] = r * l; for (int i = 0; i < V; i++) Q(i) = i < 17 ? u[i] : 0.;
  if (THERMAL) return;
  double p = pressure(Q, P), T = temperature(Q, P); if (k == 2) { req_gt(p, 0); req_gt(r, P.ρ0 * (1 + P.a)); } if (k == 1) req_gt(T, 0);
  double R = reaction_rate(Q, P);
  if (k == 0) py_K_dis(r, l, T, P, x); else if (k == 1) py_K_arr(r, l, T, P, x); else py_K_ing(r, l, p, P, x); eq(x[0], R, "reaction rate");
  P.cα2 = 0; R = reaction_rate(Q, P); if (k == 0) py_State_K_d(u, P, x); else if (k == 1) py_State_K_a(u, P, x); else py_State_K_i(u, P, x); eq(x[0], R, "reaction rate of a state");
}
#define KF "sources.K_dis sources.K_arr sources.K_ing State.K"
UNIT(react_discrete, KF) { react(0); } UNIT(react_arrhenius, KF) { react(1); } UNIT(react_growth, KF) { react(2); }
// what is read off a state
UNIT(accessors, "structures.State") {
  if (THERMAL || MULTI) return;
  Par P = make_par(GODUNOV_ROMENSKI); VecV Q = make_Q(); double u[20], x[81], r = Q(0); for (int i = 0; i < 20; i++) u[i] = i < V ? Q(i) : in_any(S("u", i));
  Par Z = P; Z.cα2 = 0; Mat3_3 A = get_A(Q), s = sigma(Q, P), G = A.transpose() * A; double p = pressure(Q, P), T = temperature(Q, P);
#define ACC(f, n, expr, nm) { py_State_##f(u, Z, x); for (int i = 0; i < n; i++) eq(x[i], expr, S(nm, i)); }
  ACC(ρ, 1, r, "density") ACC(E, 1, Q(1) / r, "energy") ACC(v, 3, Q(2 + i) / r, "velocity") ACC(A, 9, Q(5 + i), "distortion") ACC(p, 1, p, "pressure") ACC(T, 1, T, "temperature") ACC(σ, 9, s(i / 3, i % 3), "sigma")
  ACC(Σ, 9, (i % 4 ? 0 * p : p) - s(i / 3, i % 3), "Sigma") ACC(dσdρ, 9, dsigmadρ(Q, P, i / 3)(i % 3), "dsigma/drho") ACC(dEdρ, 1, dEdρ(Q, P), "dE/drho") ACC(dEdp, 1, dEdp(Q, P), "dE/dp") ACC(dEdA, 9, dEdA(Q, P)(i / 3, i % 3), "dE/dA")
  ACC(ψ, 9, dEdA_s(Q, P)(i / 3, i % 3), "psi") ACC(dTdρ, 1, dTdρ(r, p, P), "dT/drho") ACC(dTdp, 1, dTdp(r, P), "dT/dp") ACC(f_body, 3, P.δp(i), "body force") ACC(G, 9, G(i / 3, i % 3), "G")
  py_State_θ2_1(u, Z, x); eq(x[0] * P.κ * r, T, "theta2inv");
  py_State_dσdA(u, Z, x); for (int d = 0; d < 3; d++) { Mat3_3 M = dsigmadA(Q, P, d); for (int i = 0; i < 3; i++) for (int m = 0; m < 3; m++) eq(x[27 * d + 9 * i + 3 * m + d], M(i, m), S(S(S("dsigma/dA", d), i), m)); }
  // with heat conduction (longer states)
  py_State_Jλ(u, P, x); for (int i = 0; i < 3; i++) eq(x[i], u[14 + i] / r, S("impulse", i)); eq(x[3], u[17] / r, "concentration after the impulse"); py_State_λ(u, Z, x); eq(x[0], u[14] / r, "concentration");
  py_State_H(u, P, x); for (int i = 0; i < 3; i++) eq(x[i], P.cα2 * u[14 + i] / r, S("H", i)); py_State_q(u, P, x); for (int i = 0; i < 3; i++) eq(x[i], T * P.cα2 * u[14 + i] / r, S("q", i));
}
// hyperelastic states
static Hyp make_hyp() { Hyp H; H.ρ0 = in_pos("rho0"); H.α = in_pos("alpha"); H.β = in_any("beta"); H.γ = in_pos("gamma"); H.cv = in_pos("cv"); H.T0 = in_pos("T0"); H.K0 = in_pos("K0"); H.b02 = in_pos("b02"); return H; }
UNIT(hyperelastic, "hyp.total_energy_hyp hyp.entropy_hyp hyp.temperature_hyp hyp.U_1 hyp.U_2 hyp.W") {
  Hyp H = make_hyp(); double a[9], v[3], x[9], E[1], S_ = in_any("S"); for (int i = 0; i < 9; i++) a[i] = in_any(S("A", i)); for (int i = 0; i < 3; i++) v[i] = in_any(S("v", i));
  Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i]; double det = A.determinant(); req_gt(det, 0);
  py_total_energy_hyp(a, S_, v, H, E); py_entropy_hyp(E[0], a, v, H, x); eq(x[0], S_, "entropy(E(S)) = S");
  py_temperature_hyp(S_, a, H, x); eq(x[0], deriv([&](double z) { double o[1]; py_total_energy_hyp(a, z, v, H, o); return o[0]; }, S_), "temperature = dE/dS");
}
UNIT(hyperelastic_stress, "hyp.Sigma_hyp hyp.GdU_1dG hyp.GdU_2dG hyp.GdWdG hyp.total_energy_hyp") {
  Hyp H = make_hyp(); double a[9], v[3], x[9], r = in_pos("rho"), S_ = in_any("S"); Reals av(9); for (int i = 0; i < 9; i++) av[i] = a[i] = in_any(S("A", i)); for (int i = 0; i < 3; i++) v[i] = in_any(S("v", i));
  Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i]; req_gt(A.determinant(), 0);
  auto J = jac([&](Reals z) { double b[9], o[1]; for (int i = 0; i < 9; i++) b[i] = z[i]; py_total_energy_hyp(b, S_, v, H, o); return Reals{o[0]}; }, av);
  py_Sigma_hyp(r, a, S_, H, x);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double e = 0; for (int k = 0; k < 3; k++) e = e - r * A(k, i) * J[0][3 * k + j]; eq(x[3 * i + j], e, S(S("Sigma = -rho A^T dE/dA", i), j)); }
}
// the solver sees the pressure and stress of the hyperelastic state it is given
UNIT(hyperelastic_state, "hyp.Cvec_hyp hyp.pressure_hyp hyp.Sigma_hyp") {
  if (THERMAL || MULTI) return;
  Hyp H = make_hyp(); Par P = make_par(GODUNOV_ROMENSKI); P.ρ0 = H.ρ0; P.α = H.α; P.β = H.β; P.γ = H.γ; P.c02 = H.K0; P.b02 = H.b02; P.cv = H.cv; P.Tref = H.T0;
  // F is given by its inverse
  double a[9], f[9], v[3], q[14], x[9], S_ = in_any("S"); for (int i = 0; i < 3; i++) v[i] = in_any(S("v", i));
  for (int i = 0; i < 9; i++) f[i] = in_any(S("F", i)); Mat3_3 F; for (int i = 0; i < 9; i++) F(i / 3, i % 3) = f[i]; double det = F.determinant(); req_gt(det, 0);
  py_Cvec_hyp(f, S_, v, H, q); eq(q[0] * det, H.ρ0, "density"); Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i] = q[5 + i];
  Mat3_3 I = A * F; for (int i = 0; i < 9; i++) eq(I(i / 3, i % 3), i % 4 ? 0. : 1., S("A F = 1", i)); for (int i = 0; i < 3; i++) eq(q[2 + i], q[0] * v[i], S("momentum", i));
  double E[1]; py_total_energy_hyp(a, S_, v, H, E); eq(q[1], q[0] * E[0], "energy");
}
UNIT(hyperelastic_pressure, "hyp.total_energy_hyp hyp.pressure_hyp hyp.Sigma_hyp hyp.temperature_hyp") {
  if (THERMAL || MULTI) return;
  Hyp H = make_hyp(); Par P = make_par(GODUNOV_ROMENSKI); P.ρ0 = H.ρ0; P.α = H.α; P.β = H.β; P.γ = H.γ; P.c02 = H.K0; P.b02 = H.b02; P.cv = H.cv; P.Tref = H.T0;
  double a[9], q[14], x[9], E[1], T[1], v[3], S_ = in_any("S"); for (int i = 0; i < 9; i++) a[i] = in_any(S("A", i)); for (int i = 0; i < 3; i++) v[i] = in_any(S("v", i));
  Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = a[i]; double det = A.determinant(); req_gt(det, 0); double r = det * H.ρ0; Mat3_3 G = A.transpose() * A; double I3 = G.determinant(); square_of(I3, det);
  py_total_energy_hyp(a, S_, v, H, E); q[0] = r; q[1] = r * E[0]; for (int i = 0; i < 3; i++) q[2 + i] = r * v[i]; for (int i = 0; i < 9; i++) q[5 + i] = a[i]; VecV Q = state_of(q, 14);
  double p = pressure(Q, P); py_pressure_hyp(r, a, S_, H, x); eq(p, x[0], "pressure"); Mat3_3 s = sigma(Q, P); py_Sigma_hyp(r, a, S_, H, x); for (int i = 0; i < 9; i++) eq(s(i / 3, i % 3) - (i % 4 ? 0 * p : p), x[i], S("stress", i));
}
UNIT(hyperelastic_params, "objects.hyperelastic_params") {
  double ρ0 = in_pos("rho0"), α = in_pos("alpha"), β = in_any("beta"), γ = in_pos("gamma"), cv = in_pos("cv"), T0 = in_pos("T0"), b0 = in_pos("b0"), c0 = in_pos("c0"), x[8]; py_hyperelastic_params(ρ0, α, β, γ, cv, T0, b0, c0, x);
  double y[8] = {ρ0, α, β, γ, cv, T0, c0 * c0 - 4 * b0 * b0 / 3, b0 * b0}; for (int i = 0; i < 8; i++) eq(x[i], y[i], S("parameter", i));
}
// materials
static Params zero_params() { Params P; P.EOS = 0; double z = 0; P.ρ0 = P.Tref = P.cv = P.pINF = P.Γ0 = P.c02 = P.s = P.α = P.β = P.γ = P.A = P.B = P.R1 = P.R2 = P.b02 = P.μ = P.τ0 = P.σY = P.n = P.bf2 = P.bs2 = P.τf = P.τs = P.cα2 = P.κ = z; return P; }
static Par zero_par() {
  Par P; (Params &)P = zero_params(); P.MP2 = zero_params(); P.SOLID = P.POWER_LAW = P.MULTI = P.BINGHAM = false; P.REACTION = 0; double z = 0; for (int i = 0; i < 3; i++) P.δp(i) = z;
  P.T0 = P.Qc = P.Kc = P.Ti = P.Bc = P.Ea = P.Rc = P.I = P.G1 = P.G2 = P.a = P.b = P.c = P.d = P.e = P.g = P.x = P.y = P.z = P.φI = P.φG1 = P.φG2 = z; return P;
}
static void same_params(Params &X, Params &Y, std::string n) {
  ensure(X.EOS == Y.EOS, n + "EOS");
#define C(f) eq(X.f, Y.f, n + #f);
  C(ρ0) C(Tref) C(cv) C(pINF) C(Γ0) C(c02) C(s) C(α) C(β) C(γ) C(A) C(B) C(R1) C(R2) C(b02) C(μ) C(τ0) C(σY) C(n) C(cα2) C(κ)
}
static void same(Par &X, Par &Y) {
  same_params(X, Y, ""); same_params(X.MP2, Y.MP2, "second "); ensure(X.SOLID == Y.SOLID, "SOLID"); ensure(X.POWER_LAW == Y.POWER_LAW, "POWER_LAW"); ensure(X.MULTI == Y.MULTI, "MULTI"); ensure(X.BINGHAM == Y.BINGHAM, "BINGHAM"); ensure(X.REACTION == Y.REACTION, "REACTION");
  for (int i = 0; i < 3; i++) eq(X.δp(i), Y.δp(i), S("body force", i)); std::string n;
  C(Qc) C(Kc) C(Ti) C(Bc) C(Ea) C(Rc) C(I) C(G1) C(G2) C(a) C(b) C(c) C(d) C(e) C(g) C(x) C(y) C(z) C(φI) C(φG1) C(φG2)
}
static double i_(const char *n) { return in_pos(n); }
#define D(v) double v = i_(#v)
#define MAT(id, ...) UNIT(material_##id, "objects.material_params objects.params") { Par X = zero_par(), Y = zero_par(); Y.REACTION = -1; Y.n = 1; D(ρ0); Y.ρ0 = ρ0; __VA_ARGS__; same(X, Y); }
#define COMMON D(cv); Y.cv = cv; D(b0); Y.b02 = b0 * b0
#define SG_ Y.EOS = STIFFENED_GAS; D(γ); Y.γ = γ
#define SMG_ Y.EOS = SHOCK_MG; D(c0); Y.c02 = c0 * c0; D(Γ0); Y.Γ0 = Γ0; D(s); Y.s = s
#define GR_ Y.EOS = GODUNOV_ROMENSKI; D(Tref); Y.Tref = Tref; D(c0); Y.c02 = c0 * c0; D(α); Y.α = α; D(β); Y.β = β; D(γ); Y.γ = γ
#define JW_(e) Y.EOS = e; D(Γ0); Y.Γ0 = Γ0; D(A); Y.A = A; D(B); Y.B = B; D(R1); Y.R1 = R1; D(R2); Y.R2 = R2
#define VISC D(μ); Y.μ = μ
#define PLAST D(σY); Y.σY = σY; D(τ0); Y.τ0 = τ0; D(n); Y.n = n; Y.SOLID = Y.POWER_LAW = true
MAT(gas, COMMON; SG_; VISC; D(cα); Y.cα2 = cα * cα; D(Pr); Y.κ = μ * γ * cv / Pr; py_material_gas(ρ0, cv, γ, b0, cα, μ, Pr, X))
MAT(liquid, COMMON; SG_; VISC; D(Tref); Y.Tref = Tref; D(pINF); Y.pINF = pINF; D(cα); Y.cα2 = cα * cα; D(κ); Y.κ = κ; py_material_liquid(ρ0, cv, Tref, γ, pINF, b0, cα, κ, μ, X))
MAT(elastic_smg, COMMON; SMG_; Y.SOLID = true; py_material_elastic_smg(ρ0, cv, c0, Γ0, s, b0, X))
MAT(plastic_smg, COMMON; SMG_; PLAST; py_material_plastic_smg(ρ0, cv, c0, Γ0, s, b0, σY, τ0, n, X))
MAT(elastic_gr, COMMON; GR_; Y.SOLID = true; D(cα); Y.cα2 = cα * cα; D(κ); Y.κ = κ; py_material_elastic_gr(ρ0, cv, Tref, c0, α, β, γ, b0, cα, κ, X))
MAT(plastic_gr, COMMON; GR_; PLAST; py_material_plastic_gr(ρ0, cv, Tref, c0, α, β, γ, b0, σY, τ0, n, X))
MAT(elastic_jwl, COMMON; JW_(JWL); Y.SOLID = true; py_material_elastic_jwl(ρ0, cv, Γ0, A, B, R1, R2, b0, X))
MAT(elastic_cc, COMMON; JW_(COCHRAN_CHAN); Y.SOLID = true; py_material_elastic_cc(ρ0, cv, Γ0, A, B, R1, R2, b0, X))
MAT(power_fluid, COMMON; SG_; VISC; D(n); Y.n = n; Y.POWER_LAW = true; py_material_power_fluid(ρ0, cv, γ, b0, μ, n, X))
MAT(bingham, COMMON; SG_; VISC; D(σY); Y.σY = σY; Y.BINGHAM = true; py_material_bingham(ρ0, cv, γ, b0, μ, σY, X))
MAT(force, COMMON; SG_; VISC; double d[3]; for (int i = 0; i < 3; i++) Y.δp(i) = d[i] = in_any(S("dp", i)); py_material_force(ρ0, cv, γ, b0, μ, d, X))
MAT(inviscid, D(cv); Y.cv = cv; SG_; Y.n = 0; py_material_inviscid(ρ0, cv, γ, X))
MAT(any, COMMON; SG_; VISC; double Tref = in_any("Tref"); Y.Tref = Tref; double pINF = in_any("pINF"); Y.pINF = pINF; py_material_any(ρ0, cv, Tref, γ, pINF, b0, μ, X))
MAT(reactive_d, COMMON; SG_; VISC; D(Qc); Y.Qc = Qc; D(Kc); Y.Kc = Kc; D(Ti); Y.Ti = Ti; Y.REACTION = 0; py_material_reactive_d(ρ0, cv, γ, b0, μ, Qc, Kc, Ti, X))
MAT(reactive_a, COMMON; JW_(COCHRAN_CHAN); VISC; D(Qc); Y.Qc = Qc; D(Bc); Y.Bc = Bc; D(Ea); Y.Ea = Ea; D(Rc); Y.Rc = Rc; Y.REACTION = 1; py_material_reactive_a(ρ0, cv, Γ0, A, B, R1, R2, b0, μ, Qc, Bc, Ea, Rc, X))
#define G_(f) D(f); Y.f = f
MAT(reactive_i, COMMON; JW_(JWL); Y.SOLID = true; G_(Qc); G_(I); G_(G1); G_(G2); G_(a); G_(b); G_(c); G_(d); G_(e); G_(g); G_(x); G_(y); G_(z); G_(φI); G_(φG1); G_(φG2); Y.REACTION = 2;
  py_material_reactive_i(ρ0, cv, Γ0, A, B, R1, R2, b0, Qc, I, G1, G2, a, b, c, d, e, g, x, y, z, φI, φG1, φG2, X))
UNIT(material_vacuum, "objects.material_params") { Par X = zero_par(); py_material_vacuum(X); ensure(X.EOS == -1, "vacuum"); ensure(X.REACTION == -1, "no reaction"); ensure(!X.MULTI, "one material"); }
#define TWO(id, e, ...) MAT(two_##id, COMMON; JW_(JWL); VISC; G_(Qc); G_(Bc); G_(Ea); G_(Rc); Y.REACTION = 1; Y.MULTI = true; Y.MP2.EOS = e; Y.MP2.ρ0 = ρ0; D(cv_2); Y.MP2.cv = cv_2; D(Tref_2); Y.MP2.Tref = Tref_2; D(b0_2); Y.MP2.b02 = b0_2 * b0_2; D(μ_2); Y.MP2.μ = μ_2; __VA_ARGS__)
#define FIRST ρ0, cv, Γ0, A, B, R1, R2, b0, μ, Qc, Bc, Ea, Rc, cv_2, Tref_2, b0_2, μ_2
#define H_(f) D(f##_2); Y.MP2.f = f##_2
TWO(sg, STIFFENED_GAS, H_(γ); H_(pINF); py_material_two_sg(FIRST, γ_2, pINF_2, X))
TWO(smg, SHOCK_MG, D(c0_2); Y.MP2.c02 = c0_2 * c0_2; H_(Γ0); H_(s); py_material_two_smg(FIRST, c0_2, Γ0_2, s_2, X))
TWO(gr, GODUNOV_ROMENSKI, D(c0_2); Y.MP2.c02 = c0_2 * c0_2; H_(α); H_(β); H_(γ); py_material_two_gr(FIRST, c0_2, α_2, β_2, γ_2, X))
TWO(jwl, JWL, H_(Γ0); H_(A); H_(B); H_(R1); H_(R2); py_material_two_jwl(FIRST, Γ0_2, A_2, B_2, R1_2, R2_2, X))
TWO(cc, COCHRAN_CHAN, H_(Γ0); H_(A); H_(B); H_(R1); H_(R2); py_material_two_cc(FIRST, Γ0_2, A_2, B_2, R1_2, R2_2, X))
MAT(two_plain, COMMON; JW_(JWL); Y.SOLID = true; D(cα); Y.cα2 = cα * cα; D(κ); Y.κ = κ; G_(Qc); G_(Bc); G_(Ea); G_(Rc); Y.REACTION = 1; Y.MULTI = true; Y.MP2.EOS = JWL; Y.MP2.ρ0 = ρ0; D(cv_2); Y.MP2.cv = cv_2; H_(Γ0); H_(A); H_(B); H_(R1); H_(R2);
  py_material_two_plain(ρ0, cv, Γ0, A, B, R1, R2, b0, cα, κ, Qc, Bc, Ea, Rc, cv_2, Γ0_2, A_2, B_2, R1_2, R2_2, X))

// Operator splitting: what relaxing one cell does.
#include "svd3.h"
#include "solvers/split/ode.h"
#include "solvers/split/rk.h"
#include "solvers/split/numeric.h"
#include "scipy/newton_krylov.h"
OPTIONAL double nondimensionalized_time(double ρ, double detA3, double m0, double u0, double dt, Par &MP);
static double mx(const double &a, const double &b) { return a < b ? b : a; }
enum Kind { ELASTIC, NEWTON, POWER, PLASTIC };
static Par material(int k, int eos = STIFFENED_GAS) { Par P = make_par_r(eos, false); P.SOLID = k == ELASTIC || k == PLASTIC; P.POWER_LAW = k == POWER || k == PLASTIC; if (k == NEWTON) P.n = 1; return P; }
// a state whose distortion has the given singular values and density rho = rho0 det A
static VecV state(Par &P, const Svd3 &d) { VecV Q = make_Q(); for (int i = 0; i < 9; i++) Q(5 + i) = d.A(i / 3, i % 3); Q(0) = P.ρ0 * d.s(0) * d.s(1) * d.s(2); return Q; }
struct Inv { double D, m, u; };
static Inv invariants(const Vec3 &s) { double D = cbrt(s(0) * s(1) * s(2)), q = D * D, a = s(0) * s(0) / q, b = s(1) * s(1) / q, c = s(2) * s(2) / q; return {D, (a + b + c) / 3, ((a - b) * (a - b) + (b - c) * (b - c) + (c - a) * (c - a)) / 3}; }
static void others(const VecV &Q, const VecV &Q0, Par &P, double dt) { for (int i = 0; i < V; i++) { if (i >= 5 && i < 14 && VISCOUS) continue; if (THERMAL && i >= 14 && i < 17) continue; if (MULTI && i == mV && P.REACTION > -1) continue; eq(Q(i), i >= 2 && i < 5 ? Q0(i) + dt * P.δp(i - 2) : Q0(i), i >= 2 && i < 5 ? "momentum gains the body force" : "other variables are kept[" + S(i) + "]"); } }
// --- distortion: singular values D sqrt(a) >= D sqrt(b) >= D sqrt(c) with a b c = 1 (every invertible distortion), in the frame of its
// principal axes; the general frame enters through U and V in `frame`
struct Cell { Svd3 d; double D, a, b, c, m, u; };
static Cell cell() {
  Cell C; C.D = in_pos("D"); C.a = in_pos("a"); C.b = in_pos("b"); C.c = 1 / (C.a * C.b); req_ge(C.a, C.b); req_ge(C.b, C.c);
  C.d.U = Mat3_3::Identity(); C.d.V = C.d.U; C.d.s << C.D * sqrt(C.a), C.D * sqrt(C.b), C.D * sqrt(C.c); C.d.A = Mat3_3::Zero(); for (int i = 0; i < 3; i++) C.d.A(i, i) = C.d.s(i);
#ifdef SYMBOLIC
  se::register_svd(C.d.A, C.d.U, C.d.s, C.d.V);
#endif
  C.m = (C.a + C.b + C.c) / 3; C.u = ((C.a - C.b) * (C.a - C.b) + (C.b - C.c) * (C.b - C.c) + (C.c - C.a) * (C.c - C.a)) / 3; return C;
}
static VecV relax(const VecV &Q, double dt, Par &P) { Vec w(V); w = Q; ode_launcher(w, dt, P); return w; }
static void distortion(int k) {
  Par P = material(k); P.cα2 = 0; Cell C = cell(); VecV Q0 = state(P, C.d); double dt = in_pos("dt"); VecV Q = relax(Q0, dt, P); others(Q, Q0, P, dt);
  Mat3_3 D; for (int i = 0; i < 9; i++) D(i / 3, i % 3) = Q(5 + i);
  if (!(C.u >= 1e-12)) { eqm(D, C.d.A, "unstrained distortion is kept"); return; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) eq(D(i, j), 0, "principal directions are kept " + S(i) + "," + S(j));
  double y[3]; for (int i = 0; i < 3; i++) y[i] = D(i, i) * D(i, i) / (C.D * C.D);
  eq(y[0] * y[1] * y[2], 1, "determinant is kept"); for (int i = 0; i < 2; i++) ge(y[i], y[i + 1], "stretches stay in order");
}
UNIT(distortion_newtonian, "ode_launcher ode_stepper_analytic analyticSolver_distortion analyticSolver_body_forces nondimensionalized_time") { if (!THERMAL) distortion(NEWTON); }
UNIT(distortion_elastic, "ode_launcher ode_stepper_analytic analyticSolver_distortion nondimensionalized_time") {
  Par P = material(ELASTIC); P.cα2 = 0; Cell C = cell(); VecV Q0 = state(P, C.d); double dt = in_pos("dt"); VecV Q = relax(Q0, dt, P); others(Q, Q0, P, dt); if (!(C.u > 0)) return;
}
// the mean and the spread of the squared stretches follow m' = -u and the linearised law of the spread
static void relaxed(int k) {
  if (!nondimensionalized_time) return; Par P = material(k); P.cα2 = 0; Cell C = cell(); double D = C.D, m0 = C.m, u0 = C.u; VecV Q = state(P, C.d); double dt = in_pos("dt"); if (!(u0 >= 1e-12)) return;
  double t = nondimensionalized_time(Q(0), D, m0, u0, dt, P), e6 = exp(-6 * t), e9 = exp(-9 * t), a = 3 * m0 - u0 / 3 - 3, b = 2 * m0 - u0 / 3 - 2, m = 1 + a * e6 - b * e9, u = 6 * a * e6 - 9 * b * e9; if (!(u > 0)) return;
  double z = -2 * m * m * m + m * u + 2, arg = 6 * u * u * u - 81 * z * z; if (!(arg > 0)) return; if (std::abs(z) < 1e-12) return;
  double x1 = m + 2 * sqrt(u / 6) * cos(atan2(sqrt(arg), 9 * z) / 3); // the largest root of x^3 - 3m x^2 + (3m^2 - u/2) x - 1, by Viete's formula
  double q = 3 * m - x1; if (!(x1 * q * q - 4 > 0)) return; if (is_symbolic()) { req_gt(x1, 0); req_gt(q, 0); }
  VecV w = relax(Q, dt, P); Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = w(5 + i); double s = 0; for (int i = 0; i < 9; i++) s = s + A(i / 3, i % 3) * A(i / 3, i % 3);
  eq(s, 3 * m * D * D, "mean of the squared stretches");
  double y[3]; for (int i = 0; i < 3; i++) y[i] = A(i, i) * A(i, i) / (D * D); eq((y[0] - x1) * (y[1] - x1) * (y[2] - x1), 0, "the largest root is one of the squared stretches");
}
UNIT(relaxed_newtonian, "analyticSolver_distortion") { relaxed(NEWTON); }
UNIT(relaxed_elastic, "analyticSolver_distortion") { relaxed(ELASTIC); }
// dimensionless time: its rate at any moment is that of the source, with the stress taken to decay exponentially at its mean rate
static void rate(int k) {
  if (!nondimensionalized_time) return; Par P = material(k); Cell C = cell(); VecV Q = state(P, C.d); double dt = in_pos("dt"), cs2 = c_s2(Q(0), P);
  double t = nondimensionalized_time(Q(0), C.D, C.m, C.u, dt, P);
  if (k == ELASTIC) { eq(t, 0, "elastic solids do not relax"); return; }
  if (k == PLASTIC) { Mat3_3 σ = sigma(Q, P); if (!(sigma_norm(σ) <= 1e8)) return; } // above the stress at which the source is capped the two differ
  double r = 2 * cs2 * theta1inv(Q, P) * C.D * C.D / 3;
  if (k == NEWTON) { eq(t, r * dt, "dimensionless time"); return; }
  // square of the norm of the stress, up to a constant: a polynomial in the amplitudes A, B of exp(-6 t) and exp(-9 t)
  double A = 9 * C.m - C.u - 9, B = 6 * C.m - C.u - 6, f = k == PLASTIC ? 108 : 180, g = k == PLASTIC ? 396 : 612, h = k == PLASTIC ? 297 : 459;
  struct T { double c; int i, j; }; std::vector<T> poly = {{108, 1, 0}, {-324, 0, 1}, {f, 2, 0}, {-g, 1, 1}, {h, 0, 2}, {-24, 2, 1}, {48, 1, 2}, {-24, 0, 3}, {-4, 4, 0}, {16, 3, 1}, {-24, 2, 2}, {16, 1, 3}, {-4, 0, 4}};
  double c = 0, I = 0; for (auto &q : poly) { double v = q.c; for (int n = 0; n < q.i; n++) v = v * A; for (int n = 0; n < q.j; n++) v = v * B; c = c + v; I = I + v / (6 * q.i + 9 * q.j); }
  double G[3] = {C.a, C.b, C.c}, s[3]; for (int i = 0; i < 3; i++) s[i] = G[i] * (G[i] - C.m);
  if (k == PLASTIC) eq(c, 18 * ((s[0] - s[1]) * (s[0] - s[1]) + (s[1] - s[2]) * (s[1] - s[2]) + (s[2] - s[0]) * (s[2] - s[0])), "lemma: squared von Mises stress");
  else eq(c, 54 * (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]), "lemma: squared stress");
  if (!(c > 0)) return; double λ = c / I, e = k == PLASTIC ? P.n : (1 - P.n) / P.n; 
  eq(e * λ * t / 2, log(e * λ * r * dt / 2 + 1), "dimensionless time");
}
UNIT(rate_newtonian, "nondimensionalized_time theta1inv") { rate(NEWTON); }
UNIT(rate_elastic, "nondimensionalized_time") { rate(ELASTIC); }
UNIT(rate_power, "nondimensionalized_time theta1inv") { rate(POWER); }
UNIT(rate_plastic, "nondimensionalized_time theta1inv") { rate(PLASTIC); }
// --- thermal impulse: the law of the source, for all times
static void thermal(int eos) {
  if (!THERMAL) return; Par P = material(ELASTIC, eos); P.δp.setZero(); Svd3 d; d.U = Mat3_3::Identity(); d.V = d.U; double s = in_pos("s"); d.s << s, s, s; d.A = Mat3_3::Zero(); for (int i = 0; i < 3; i++) d.A(i, i) = s;
  VecV Q = make_Q(); for (int i = 0; i < 9; i++) Q(5 + i) = d.A(i / 3, i % 3); in_domain(P, Q(0)); double dt = in_pos("dt"); if (!is_symbolic()) { VecV F; req_gt(temperature(Q, P), 0); }
  auto after = [&](double t) { Vec u(V); u = Q; ode_launcher(u, t, P); return VecV(u); };
#ifdef SYMBOLIC
  se::register_svd(d.A, d.U, d.s, d.V);
#endif
  VecV Qt = after(dt), R; source(R, Qt, P);
  for (int i = 14; i < 17; i++) eq(deriv([&](double t) { return after(t)(i); }, dt), R(i), "impulse follows its source " + S(i - 14));
  for (int i = 0; i < V; i++) if (i < 14 || i > 16) eq(Qt(i), Q(i), "other variables are kept[" + S(i) + "]");
}
UNIT(thermal_SG, "analyticSolver_thermal source") { thermal(STIFFENED_GAS); }
UNIT(thermal_SMG, "analyticSolver_thermal source") { thermal(SHOCK_MG); }
UNIT(thermal_JWL, "analyticSolver_thermal source") { thermal(JWL); }
UNIT(thermal_CC, "analyticSolver_thermal source") { thermal(COCHRAN_CHAN); }
UNIT(thermal_GR, "analyticSolver_thermal source") { thermal(GODUNOV_ROMENSKI); }
// --- reaction
UNIT(runge_kutta, "runge_kutta_launcher runge_kutta rk4") {
  double y = in_any("y"), t = in_pos("t"); auto f = [](double x) { return is_symbolic() ? any_fn("f", {x}) : 1 - x; };
  for (int n = 1; n <= 4; n++) { double r = runge_kutta_launcher(f, t, y, n), x = y, h = t / n; for (int k = 0; k < n; k++) { double a = f(x), b = f(x + h * a / 2), c = f(x + h * b / 2), e = f(x + h * c); x = x + h * (a + 2 * b + 2 * c + e) / 6; } eq(r, x, "classical fourth-order method, " + S(n) + " steps"); }
}

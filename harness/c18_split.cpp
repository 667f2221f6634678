// Operator splitting: reaction, half step of the reconstruction, sweep over the cells.
#include "gpr.h"
#include "solvers/split/homogeneous.h"
#include "solvers/split/ode.h"
#include "solvers/split/numeric.h"
#include "solvers/poly/basis.h"
#include "scipy/newton_krylov.h"
OPTIONAL void ode_stepper_numerical(VecVr Q, double dt, Par &MP);
OPTIONAL void ode_stepper_analytic(VecVr Q, double dt, Par &MP);
// classical fourth-order Runge-Kutta for d(lambda)/dt = -rate(rho, .., lambda rho, ..)
static double rk(double y, double t, VecV Q, Par &P, int n) {
  auto f = [&](double l) { VecV R = Q; R(mV) = Q(0) * l; return -reaction_rate(R, P); }; double h = t / n;
  for (int k = 0; k < n; k++) { double a = f(y), b = f(y + h * a / 2), c = f(y + h * b / 2), e = f(y + h * c); y = y + h * (a + 2 * b + 2 * c + e) / 6; } return y;
}
UNIT(reaction, "ode_stepper_numerical func runge_kutta_launcher runge_kutta") {
  if (!MULTI || !ode_stepper_numerical) return; Par P = make_par_r(STIFFENED_GAS, true); VecV Q = make_Q(), Q0 = Q; double dt = in_pos("dt"); ode_stepper_numerical(Q, dt, P);
  for (int i = 0; i < V; i++) if (i != mV) eq(Q(i), Q0(i), "only the concentration changes");
  if (!(Q0(mV) > 0)) { eq(Q(mV), Q0(mV), "nothing left to react"); return; }
  double l = rk(Q0(mV) / Q0(0), dt, Q0, P, RK_STEPS); eq(Q(mV), l > 0 ? Q0(0) * l : double(0), "concentration follows the reaction rate"); ge(Q(mV), 0, "concentration stays nonnegative");
}
UNIT(no_reaction, "ode_stepper_numerical") { if (!ode_stepper_numerical) return; Par P = make_par_r(STIFFENED_GAS, false); VecV Q = make_Q(), Q0 = Q; double dt = in_pos("dt"); ode_stepper_numerical(Q, dt, P); for (int i = 0; i < V; i++) eq(Q(i), Q0(i), "inert material is not changed"); }
// half a step of the homogeneous system at every node of every active cell
static void half(int nd, int nc, int bits) {
  Par P = make_par_r(STIFFENED_GAS, false); double dt = is_symbolic() ? in_pos("dt") : in_range("dt", 1e-3, 1e-2); Vec dX(nd); for (int d = 0; d < nd; d++) dX(d) = in_pos("dx" + S(d)); int sp = nd == 1 ? N : N * N;
  Vec w(nc * sp * V); bVec m(nc); for (int k = 0; k < nc; k++) m(k) = bits >> k & 1; for (int i = 0; i < w.size(); i++) { int v = i % V; w(i) = is_symbolic() ? in_any("w" + S(i)) : v == 0 ? in_range("w" + S(i), 1, 2) : in_any("w" + S(i)); }
  Vec w0 = w; midstepper(w, dt, dX, P, m); std::string tag = " (" + S(nd) + "D, mask " + S(bits) + ")";
  for (int k = 0; k < nc; k++) {
    auto at = [&](int s) { VecV q; for (int v = 0; v < V; v++) q(v) = w0((k * sp + s) * V + v); return q; };
    for (int s = 0; s < sp; s++) { VecV q = at(s), g = VecV::Zero();
      if (m(k)) for (int d = 0; d < nd; d++) {
        VecV dq = VecV::Zero(), dF = VecV::Zero(); int pos = nd == 1 ? s : d == 0 ? s / N : s % N;
        for (int j = 0; j < N; j++) { int sj = nd == 1 ? j : d == 0 ? j * N + s % N : (s / N) * N + j; VecV u = at(sj), F = VecV::Zero(); flux(F, u, d, P); double c = DERVALS(pos, j); dq += c * u; dF += c * F; }
        VecV B; B.setZero(); Bdot(B, q, dq, d, P); g += (dF + B) / dX(d); }
      for (int v = 0; v < V; v++) eq(w((k * sp + s) * V + v), q(v) - dt / 2 * g(v), (m(k) ? "half step" : "inactive cell is not changed") + tag); }
  }
}
UNIT(half_step_line, "midstepper") { half(1, 1, 1); }
UNIT(half_step_plane, "midstepper") { half(2, 1, 1); }
UNIT(b_half_step_masks, "midstepper") { for (int b = 0; b < 8; b++) half(1, 3, b); for (int b = 0; b < 4; b++) half(2, 2, b); }
// every cell is relaxed on its own: the body force and the reaction of each cell, nothing from its neighbours
UNIT(b_sweep, "ode_launcher") {
  if (!ode_stepper_numerical || !ode_stepper_analytic) return; Par P = make_par_r(STIFFENED_GAS, MULTI); P.SOLID = true; double dt = in_pos("dt"); 
  for (int n = 0; n <= 3; n++) { Vec u(n * V); for (int k = 0; k < n; k++) for (int v = 0; v < V; v++) u(k * V + v) = v == 0 ? in_pos("u" + S(k)) : v >= 5 && v < 14 ? double(v % 4 == 1 ? 1 : 0) : MULTI && v == mV && k == 1 ? double(-1) : in_any("u" + S(k) + "_" + S(v));
    Vec u0 = u; for (int k = 0; k < n; k++) if (MULTI && k != 1) { if (is_symbolic()) req_gt(u0(k * V + mV), 0); else if (!(u0(k * V + mV) > 0)) return; }
    ode_launcher(u, dt, P);
    for (int k = 0; k < n; k++) { VecV q = u0.segment<V>(k * V); ode_stepper_analytic(q, dt, P); ode_stepper_numerical(q, dt, P); for (int v = 0; v < V; v++) eq(u(k * V + v), q(v), "cell " + S(k) + " of " + S(n)); } }
}
// the stiff solver: Galerkin equation of the step at its nodes, read at the end of the step
UNIT(stiff, "stiff_ode_solve obj0") {
  double x0 = in_any("x0"), dt = in_pos("dt"); std::function<double(double)> f = [](double x) { return any_fn("rhs", {x}); };
  VecFunc F = [&](Vecr y) { Vec r(N); for (int i = 0; i < N; i++) { double s = 0; for (int j = 0; j < N; j++) s = s + DG_MAT(i, j) * y(j); r(i) = s - ENDVALS(0, i) * x0 - dt * WGHTS(i) * f(y(i)); } return r; };
  Vec y(N); for (int i = 0; i < N; i++) y(i) = x0; Vec z = nonlin_solve(F, y); double e = 0; for (int i = 0; i < N; i++) e = e + ENDVALS(1, i) * z(i); eq(stiff_ode_solve(x0, dt, f), e, "collocation solution at the end of the step");
}

// The interface state: found in the frame of the interface, after at most ten iterations each preceded by half a step of
// relaxation of both materials (a vacuum has none), returned in the frame of the grid; a failed iteration returns the state it began with.
#include "gpr.h"
#include "system/multi/riemann.h"
#include "system/multi/rotations.h"
#include "system/relaxation/analytic.h"
#include "contract_star.h"
static void run(const Vec &n, bool vac, int settle, int nan_at, const std::string &t) {
  Par L = make_par_r(STIFFENED_GAS, false, "_l"), R = make_par_r(STIFFENED_GAS, false, "_r"); if (vac) R.EOS = VACUUM; VecV a = make_Q("l"), b = make_Q("r"), QL = a, QR = b; double dt = in_pos("dt"); Vec m = n;
  auto script = [&] { STAR = Star(); STAR.settle = settle; STAR.nan_at = nan_at; };
  script(); Mat3_3 F = rotation_matrix(m), T = F.transpose(); rotate_tensors(QL, F); rotate_tensors(QR, F); int k = 0; bool nan = false;
  for (; k < 10 && k < settle && !nan; k++) { if (RIEMANN_RELAXATION) { ode_stepper_analytic(QL, dt / 2, L); if (!vac) ode_stepper_analytic(QR, dt / 2, R); } star_stepper(QL, QR, L, R); for (int i = 0; i < V; i++) nan |= std::isnan(QL(i)); }
  if (nan) QL = a; else rotate_tensors(QL, T);
  script(); VecV x = a, y = b; VecV got = left_star_state(x, y, L, R, dt, m); ensure(STAR.steps == k, t + "number of iterations"); for (int i = 0; i < V; i++) eq(got(i), QL(i), t + "state[" + S(i) + "]");
}
static void cases(const Vec &n) { for (int v = 0; v < 2; v++) { for (int s : {0, 1, 2, 9, 10, 11, 50}) run(n, v, s, 0, S(v) + " settles after " + S(s) + ": "); for (int k : {1, 3, 10}) run(n, v, 50, k, S(v) + " fails in " + S(k) + ": "); } }
UNIT(star_1d, "left_star_state") { Vec n(1); n(0) = -1.; cases(n); n(0) = 1.; cases(n); }
UNIT(star_2d, "left_star_state") { double t = in_any("t"); Vec n(2); n(0) = (1 - t * t) / (1 + t * t); n(1) = 2 * t / (1 + t * t); cases(n); }

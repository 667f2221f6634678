// One step: reconstruction, prediction and update (ADER), or half a step of the sources, reconstruction, half a step of the
// homogeneous system, update, and half a step of the sources (split).
#include "gpr.h"
#include "etc/grid.h"
#include "solvers/steppers.h"
#include "solvers/dg/dg.h"
#include "solvers/fv/fv.h"
#include "solvers/split/homogeneous.h"
#include "solvers/split/ode.h"
#include "solvers/weno/weno.h"
static void run(bool split, int nd, int nx, int ny, bool flag, int F) {
  iVec nX(nd); Vec dX(nd); nX(0) = nx; dX(0) = in_pos("dx"); if (nd > 1) { nX(1) = ny; dX(1) = in_pos("dy"); } int cells = nx * (nd > 1 ? ny : 1), ext = extended_dimensions(nX, 1), sp = nd > 1 ? N * N : N;
  Par P = make_par_r(STIFFENED_GAS, false); double dt = in_pos("dt"); Vec u(cells * V), ub(extended_dimensions(nX, N) * V); bVec mask(ext);
  for (int i = 0; i < u.size(); i++) u(i) = in_any("u" + S(i)); for (int i = 0; i < ub.size(); i++) ub(i) = in_any("ub" + S(i)); for (int i = 0; i < mask.size(); i++) mask(i) = i % 3 != 0 || i % 5 == 1;
  Vec w(ext * sp * V), u1 = u, b1 = ub, u2 = u, b2 = ub; iVec n1 = nX; Vec d1 = dX; bVec m1 = mask;
  if (split) { double h = dt / 2; ode_launcher(u1, h, P); ode_launcher(b1, h, P); weno_launcher(w, b1, n1, P); if (flag) midstepper(w, dt, d1, P, m1); fv_launcher(u1, w, n1, dt, d1, false, false, F, P, m1); ode_launcher(u1, h, P); split_stepper(u2, b2, n1, dt, d1, flag, F, P, m1); }
  else { Vec q(ext * sp * N * V); weno_launcher(w, b1, n1, P); predictor(q, w, dt, d1, flag, false, P, m1); fv_launcher(u1, q, n1, dt, d1, true, true, F, P, m1); ader_stepper(u2, b2, n1, dt, d1, flag, F, P, m1); }
  for (int i = 0; i < u.size(); i++) eq(u2(i), u1(i), std::string(split ? "split " : "ader ") + S(nd) + "d: cell " + S(i / V) + "[" + S(i % V) + "]"); ensure(m1 == mask && n1 == nX, "mask and shape kept");
}
UNIT(b_ader_step, "ader_stepper") { for (int f = 0; f < 3; f++) for (int s = 0; s < 2; s++) { run(false, 1, 2 + s, 0, s, f); run(false, 2, 2, 1 + s, s, f); } }
UNIT(b_split_step, "split_stepper") { for (int f = 0; f < 3; f++) for (int s = 0; s < 2; s++) { run(true, 1, 2 + s, 0, s, f); run(true, 2, 2, 1 + s, s, f); } }

// The predictor: in every active cell the first Picard iterate that has settled, or what the nonlinear solver makes of the
// residual of that cell; nothing else is written.
#include "gpr.h"
#include "solvers/dg/dg.h"
#include "solvers/dg/dg1.h"
#include "solvers/dg/dg2.h"
#include "scipy/newton_krylov.h"
static void run(int nd, int nc, int bits, bool stiff, bool ig) {
  int sp = nd == 1 ? N : N * N, st = N * sp; Par P = make_par_r(STIFFENED_GAS, false); double dt = is_symbolic() ? in_pos("dt") : in_range("dt", 1e-4, 1e-3); Vec dX(nd); for (int d = 0; d < nd; d++) dX(d) = in_range("dx" + S(d), 0.1, 1);
  Vec qh(nc * st * V), wh(nc * sp * V); bVec m(nc); for (int k = 0; k < nc; k++) m(k) = bits >> k & 1;
  for (int i = 0; i < qh.size(); i++) qh(i) = in_any("h" + S(i)); for (int i = 0; i < wh.size(); i++) { int v = i % V; wh(i) = v == 0 ? in_range("w" + S(i), 1, 2) : v == 1 ? double(20) : v >= 5 && v < 14 ? (v % 4 == 1 ? 1 : 0) : double(v) / 16; }
  Vec q0 = qh, w0 = wh; predictor(qh, wh, dt, dX, stiff, ig, P, m); std::string tag = " (" + S(nd) + "D, mask " + S(bits) + (stiff ? ", stiff" : "") + (ig ? ", stiff guess" : "") + ")";
  for (int i = 0; i < wh.size(); i++) eq(wh(i), w0(i), "reconstruction is not changed" + tag);
  for (int k = 0; k < nc; k++) {
    if (!m(k)) { for (int i = 0; i < st * V; i++) eq(qh(k * st * V + i), q0(k * st * V + i), "inactive cell is not changed" + tag); continue; }
    Mat Ww(st, V), q(st, V); for (int t = 0; t < N; t++) for (int s = 0; s < sp; s++) for (int v = 0; v < V; v++) { double w = w0((k * sp + s) * V + v); q(t * sp + s, v) = w; Ww(t * sp + s, v) = ENDVALS(0, t) * (nd == 1 ? double(WGHTS(s)) : WGHTS(s / N) * WGHTS(s % N)) * w; }
    MatN2_V W1; MatN3_V W2; if (nd == 1) W1 = Ww; else W2 = Ww;
    auto rhs = [&](const Mat &x) { Mat r; if (nd == 1) { MatN2_V y = x; r = rhs1(y, W1, dt, dX(0), P); } else { MatN3_V y = x; r = rhs2(y, W2, dt, dX(0), dX(1), P); } return r; };
    Mat got(st, V); for (int i = 0; i < st * V; i++) got(i / V, i % V) = qh(k * st * V + i);
    bool ok = false; Mat g = q, p;
    if (!stiff) for (int n = 0; n < DG_IT && !ok; n++) {
      p = (nd == 1 ? DG_U1 : DG_U2).solve(rhs(q)); ok = true; for (int s = 0; s < st && ok; s++) for (int v = 0; v < V && ok; v++) { double a = p(s, v) - q(s, v); if (abs(a) > DG_TOL * (1 + abs(q(s, v)))) ok = false; }
      if (!ok) q = p;
    }
    if (ok) { eqm(got, p, "settled iterate" + tag); continue; }
    VecFunc F = [&](Vecr x) { Vec r; if (nd == 1) r = obj1(x, W1, dt, dX(0), P); else r = obj2(x, W2, dt, dX(0), dX(1), P); return r; };
    Vec x0(st * V); for (int i = 0; i < st * V; i++) x0(i) = g(i / V, i % V); Vec x = nonlin_solve(F, x0, DG_TOL); for (int i = 0; i < st * V; i++) eq(got(i / V, i % V), x(i), "solution of the residual of this cell" + tag);
  }
}
#define FS "predictor predictor1 initial_condition1 standard_initial_guess1 stiff_initial_guess"
#define FS2 "predictor predictor2 initial_condition2 standard_initial_guess2 stiff_initial_guess"
UNIT(b_line, FS) { run(1, 1, 1, false, false); }
UNIT(b_line_stiff_guess, FS) { run(1, 1, 1, false, true); }
UNIT(b_line_masks, FS) { for (int b = 0; b < 8; b++) run(1, 3, b, true, b & 1); }
UNIT(b_line_two, FS) { run(1, 2, 2, false, false); }
UNIT(b_line_three, FS) { run(1, 3, 2, false, false); }
UNIT(b_plane, FS2) { run(2, 1, 1, false, false); }
UNIT(b_plane_stiff_guess, FS2) { run(2, 1, 1, false, true); }
UNIT(b_plane_masks, FS2) { for (int b = 0; b < 4; b++) run(2, 2, b, true, b & 1); }
UNIT(b_plane_two, FS2) { run(2, 2, 2, false, false); }

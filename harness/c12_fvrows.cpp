// The finite-volume update of a slice of rows is that of the whole grid.
#include "gpr.h"
#include "etc/grid.h"
#include "solvers/fv/fv.h"
#include "solvers/fv/fluxes.h"
static double field(const std::string &n, int i) { return is_symbolic() ? in_any(n) : i == 0 ? in_range(n, 1, 1.1) : i == 1 ? in_range(n, 9, 9.5) : in_range(n, -.05, .05) + ((i == 5 || i == 9 || i == 13) ? 1 : 0); }
static void fv_rows(int nd, int nx, int ny, int lo, int hi, int f, bool src, bool time) {
  iVec nX(nd), nS(nd); nX(0) = nx; nS(0) = hi - lo; Vec dX(nd); dX(0) = in_pos("dx"); if (nd > 1) { nX(1) = nS(1) = ny; dX(1) = in_pos("dy"); } double dt = in_pos("dt"); int row = nd > 1 ? ny : 1, em = nd > 1 ? ny + 2 : 1, per = (nd > 1 ? N * N : N) * (time ? N : 1); Par P = make_par_r(STIFFENED_GAS, false);
  Vec u(nx * row * V), rec((nx + 2) * em * per * V); for (int i = 0; i < u.size(); i++) u(i) = field("u" + S(i), i % V); for (int i = 0; i < rec.size(); i++) rec(i) = field("r" + S(i), i % V); bVec mask((nx + 2) * em); for (int i = 0; i < mask.size(); i++) mask(i) = i % 5 != 0 && i % 7 != 3;
  Vec s = u.segment(lo * row * V, (hi - lo) * row * V), srec = rec.segment(lo * em * per * V, (hi - lo + 2) * em * per * V); bVec sm = mask.segment(lo * em, (hi - lo + 2) * em);
  iVec a = nX, b = nS; fv_launcher(u, rec, a, dt, dX, src, time, f, P, mask); fv_launcher(s, srec, b, dt, dX, src, time, f, P, sm);
  for (int i = 0; i < s.size(); i++) eq(s(i), u(lo * row * V + i), "rows " + S(lo) + " to " + S(hi) + " of " + S(nx) + ": value " + S(i));
}
#define F "fv_launcher"
UNIT(b_fv_rows1, F) { for (int f = 0; f < 3; f++) for (int nx : {2, 4}) for (int lo = 0; lo < nx; lo++) for (int hi = lo; hi <= nx; hi++) fv_rows(1, nx, 0, lo, hi, f, f != 1, f != 2); }
UNIT(b_fv_rows2, F) { fv_rows(2, 3, 2, 0, 2, OSHER, false, false); fv_rows(2, 3, 2, 1, 3, ROE, true, false); fv_rows(2, 3, 2, 1, 2, RUSANOV, true, true); fv_rows(2, 2, 1, 1, 1, OSHER, true, true); }

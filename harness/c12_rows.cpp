// The functions a step is made of work row by row: on a slice of rows with its margins they give what they give on the whole grid.
#include "gpr.h"
#include "etc/grid.h"
#include "solvers/weno/weno.h"
// reconstruction; a row of extended cells next to the slice reaches the slice only through its faces, so corner cells do not count
static void weno_rows(int nd, int nx, int ny, int lo, int hi, int walls) {
  iVec nX(nd), nS(nd); nX(0) = nx; nS(0) = hi - lo; if (nd > 1) nX(1) = nS(1) = ny; int ex = nd > 1 ? ny + 2 * N : 1, em = nd > 1 ? ny + 2 : 1, sp = nd > 1 ? N * N : N; Par P = make_par_r(STIFFENED_GAS, false);
  Vec ub((nx + 2 * N) * ex * V); for (int i = 0; i < ub.size(); i++) ub(i) = in_any("ub" + S(i)); Vec sub = ub.segment(lo * ex * V, (hi - lo + 2 * N) * ex * V);
  Vec w((nx + 2) * em * sp * V), s((hi - lo + 2) * em * sp * V); iVec a = nX, b = nS; weno_launcher(w, ub, a, P); weno_launcher(s, sub, b, P);
  for (int i = 0; i < hi - lo + 2; i++) for (int j = 0; j < em; j++) {
    bool corner = nd > 1 && (i == 0 || i == hi - lo + 1) && (j == 0 || j == em - 1); if (corner) continue; bool edge = nd > 1 && (j < N || j >= em - N) && (i < N || i >= hi - lo + 2 - N); if (walls >= 0 && edge != (walls == 1)) continue;
    for (int k = 0; k < sp * V; k++) eq(s((i * em + j) * sp * V + k), w(((lo + i) * em + j) * sp * V + k), std::string("rows ") + S(lo) + " to " + S(hi) + " of " + S(nx) + (edge ? ": cell beside the side wall at the end of the slice " : ": cell ") + S(i) + "," + S(j) + "[" + S(k) + "]");
  }
}
#define F "weno_launcher weno1 weno2"
UNIT(b_weno_rows1, F) { for (int nx : {2, 3, 5}) for (int lo = 0; lo < nx; lo++) for (int hi = lo; hi <= nx; hi++) weno_rows(1, nx, 0, lo, hi, -1); }
static const std::vector<std::vector<int>> CASES = {{4, 4, 0, 2}, {4, 4, 2, 4}, {6, 4, 1, 5}, {5, 2, 2, 5}, {3, 1, 1, 2}, {3, 2, 1, 1}};
UNIT(b_weno_rows2, F) { for (auto &r : CASES) weno_rows(2, r[0], r[1], r[2], r[3], 0); }
UNIT(b_weno_rows2_walls, F) { for (auto &r : CASES) weno_rows(2, r[0], r[1], r[2], r[3], 1); }

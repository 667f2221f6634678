// A step run by any number of threads, in any order, is the step of one thread.
#include "gpr.h"
#include "etc/grid.h"
#include "solvers/steppers.h"
#include "contract_stepper.h"
#include "omp_sim.h"
static void run(bool split, int nd, int nx, int ny, int threads) {
  iVec nX(nd); Vec dX(nd); nX(0) = nx; dX(0) = in_pos("dx"); if (nd > 1) { nX(1) = ny; dX(1) = in_pos("dy"); } int cells = nx * (nd > 1 ? ny : 1);
  Par P = make_par_r(STIFFENED_GAS, false); double dt = in_pos("dt"); Vec u(cells * V), ub(extended_dimensions(nX, N) * V); bVec mask(extended_dimensions(nX, 1));
  for (int i = 0; i < u.size(); i++) u(i) = in_any("u" + S(i)); for (int i = 0; i < ub.size(); i++) ub(i) = in_any("ub" + S(i)); for (int i = 0; i < mask.size(); i++) mask(i) = i % 3 != 0 || i % 5 == 1;
  for (int flag = 0; flag < 2; flag++) {
    Vec u1 = u, b1 = ub; auto one = split ? split_stepper : ader_stepper; auto para = split ? split_stepper_para : ader_stepper_para; iVec n1 = nX; Vec d1 = dX; bVec m1 = mask; one(u1, b1, n1, dt, d1, flag == 1, flag + 1, P, m1);
    std::string tag = std::string(split ? "split " : "ader ") + S(nd) + "d " + S(nx) + " rows " + S(threads) + " threads";
    for (int order = 0; order < 2; order++) {
      Vec u2 = u, b2 = ub; bVec m2 = mask; iVec n2 = nX; Vec d2 = dX; CALLS = Calls(); { Threads T(threads, order); para(u2, b2, n2, dt, d2, flag == 1, flag + 1, P, m2); }
      ensure(CALLS.n > 0 && CALLS.wrong.empty(), tag + ": slices " + (CALLS.wrong.empty() ? "" : CALLS.wrong[0]));
      for (int i = 0; i < u.size(); i++) eq(u2(i), u1(i), tag + (order ? " last first" : "") + ": cell " + S(i / V) + "[" + S(i % V) + "]");
      ensure(m2 == mask && n2 == nX, tag + ": mask and shape kept");
    }
  }
}
#define F "ader_stepper_para split_stepper_para"
UNIT(b_ader1, F) { for (int nx : {1, 2, 3, 5, 8}) for (int t : {1, 2, 3, 4, 8}) run(false, 1, nx, 0, t); }
UNIT(b_split1, F) { for (int nx : {1, 2, 3, 5, 8}) for (int t : {1, 2, 3, 4, 8}) run(true, 1, nx, 0, t); }
UNIT(b_ader2, F) { for (int nx : {1, 3, 4}) for (int t : {1, 2, 3, 5}) run(false, 2, nx, 2, t); }
UNIT(b_split2, F) { for (int nx : {1, 3, 4}) for (int t : {1, 2, 3, 5}) run(true, 2, nx, 2, t); }

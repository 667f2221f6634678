// Contract of the nonlinear solver (see C20) as the mixture sees it: any point, reported to the harness with the system given.
#include "gpr.h"
#include "scipy/newton_krylov.h"
#include "contract_solver.h"
Solved solved;
Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol, double x_rtol) {
  solved.calls++; solved.F = F; solved.x0 = x; solved.tol = f_tol; Vec r(x.size());
  for (int i = 0; i < x.size(); i++) { r(i) = in_pos("solution" + S(solved.calls) + "_" + S(i)); }
  solved.x = r; return r;
}

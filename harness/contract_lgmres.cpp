// What the Newton iteration sees of the linear solver: a step prescribed by the harness, after some products with the matrix.
#include "gpr.h"
#include "contract_lgmres.h"
#include "scipy/lgmres.h"
std::function<Vec(VecFunc, Vecr, double)> linear_solver;
Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x, std::vector<Vec> &outer_v, const double tol, const int maxiter, const int inner_m, const int outer_k) { ensure(maxiter > 0 && inner_m > 0, "the linear solver may work"); for (int i = 0; i < x.size(); i++) eq(x(i), 0, "linear solver starts from no step"); Vec p = psolve(b); for (int i = 0; i < b.size(); i++) eq(p(i), b(i), "no preconditioner"); return linear_solver(matvec, b, tol); }

// Contract of the reaction rate, as the operator splitting sees it: an arbitrary nonnegative function of the state (C03 proves the laws).
#include "etc/globals.h"
#include "system/objects.h"
#include "scipy/newton_krylov.h"
#include "h.h"
double reaction_rate(VecVr Q, Par &P) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(P.ρ0); double x = any_fn("rate", a); return x * x; }
double temperature(VecVr Q, Par &P) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); return 1 + any_fn("temp", a); }
// the nonlinear solver: an arbitrary function of its start and of the residual it is given (seen at three points)
Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol, double x_rtol) {
  std::vector<double> a; for (int t = 0; t < 3; t++) { Vec y = x; for (int i = 0; i < y.size(); i++) y(i) += t * (i + t); Vec f = F(y); for (int i = 0; i < y.size(); i++) a.push_back(f(i)); }
  for (int i = 0; i < x.size(); i++) a.push_back(x(i)); Vec r = x; for (int i = 0; i < x.size(); i++) r(i) = any_fn("root" + S(i), a); return r;
}

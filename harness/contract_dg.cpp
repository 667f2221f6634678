// Contracts of the right-hand side of the predictor (proved in c09_weak) and of the nonlinear solver, as the predictor sees
// them: an arbitrary function of the iterate, and an arbitrary function of the start vector and of the residual it is given.
#include "etc/globals.h"
#include "system/objects.h"
#include "scipy/newton_krylov.h"
#include "h.h"
// any right-hand side is the image of some iterate under the (invertible) space-time matrix
template <class M> static void any_rhs(M &r, const M &q, const M &W, std::vector<double> a) {
  int sp = q.rows() / N; for (int s = 0; s < q.rows(); s++) a.push_back(q(s, 0)); std::vector<double> g; for (int s = 0; s < q.rows(); s++) g.push_back(any_fn("R" + S(s), a)); r = W;
  for (int t = 0; t < N; t++) for (int s = 0; s < sp; s++) { double w = sp == N ? double(WGHTS(s)) : WGHTS(s / N) * WGHTS(s % N), x = 0; for (int k = 0; k < N; k++) x = x + DG_MAT(t, k) * g[k * sp + s]; r(t * sp + s, 0) = w * x; }
}
MatN2_V rhs1(MatN2_Vr q, MatN2_Vr Ww, double dt, double dx, Par &P) { MatN2_V r; any_rhs<MatN2_V>(r, q, Ww, {dt, dx, P.ρ0}); return r; }
MatN3_V rhs2(MatN3_Vr q, MatN3_Vr Ww, double dt, double dx, double dy, Par &P) { MatN3_V r; any_rhs<MatN3_V>(r, q, Ww, {dt, dx, dy, P.ρ0}); return r; }
Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol, double x_rtol) {
  std::vector<double> a{f_tol}; Vec y = x; for (int i = 0; i < y.size(); i++) y(i) += i % 3; Vec f = F(x), g = F(y);
  for (int i = 0; i < x.size(); i++) if (i % V < 2) { a.push_back(x(i)); a.push_back(f(i)); a.push_back(g(i)); }
  Vec r = x; for (int i = 0; i < x.size(); i += V) r(i) = any_fn("nk" + S(i), a); return r;
}

// Contract of ader_stepper and split_stepper, as their parallel wrappers see them: each row of cells becomes an arbitrary function
// of its old value, of the N extended rows on each side, of the mask rows next to it and of the parameters (c12_rows: the
// functions they call work row by row); the split stepper may use the extended grid it is given as scratch space.
#include "etc/globals.h"
#include "etc/grid.h"
#include "solvers/steppers.h"
#include "contract_stepper.h"
#include "h.h"
Calls CALLS;
static void step(const char *n, Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask, bool scratch) {
  CALLS.n++; int nx = nX(0), row = V, erow = V, mrow = 1; for (int d = 1; d < nX.size(); d++) { row *= nX(d); erow *= nX(d) + 2 * N; mrow *= nX(d) + 2; }
  if (u.size() != nx * row) { CALLS.wrong.push_back("size of the grid"); return; } if (ub.size() != (nx + 2 * N) * erow) { CALLS.wrong.push_back("size of the extended grid"); return; } if (mask.size() != (nx + 2) * mrow) { CALLS.wrong.push_back("size of the mask"); return; }
  for (int i = 0; i < nx; i++) {
    std::vector<double> a{dt, double(f ? 1 : 0), double(F), P.ρ0}; for (int d = 0; d < dX.size(); d++) a.push_back(dX(d)); for (int d = 1; d < nX.size(); d++) a.push_back(double(nX(d)));
    for (int k = 0; k < row; k++) a.push_back(u(i * row + k)); for (int k = i * erow; k < (i + 2 * N + 1) * erow; k++) a.push_back(ub(k)); double m = 0, w = 1; for (int k = i * mrow; k < (i + 3) * mrow; k++) { m += w * double(mask(k) ? 1 : 0); w *= 2; } a.push_back(m);
    double h = any_fn(n, a); for (int k = 0; k < row; k++) u(i * row + k) = any_fn("row" + S(k), {h});
  }
  if (scratch) { std::vector<double> a; for (int k = 0; k < ub.size(); k++) a.push_back(ub(k)); double h = any_fn("scratch", a); for (int k = 0; k < ub.size(); k++) ub(k) = any_fn("s" + S(k), {h}); }
}
void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask) { step("ader", u, ub, nX, dt, dX, f, F, P, mask, false); }
void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask) { step("split", u, ub, nX, dt, dX, f, F, P, mask, true); }

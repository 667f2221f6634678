// Contracts of the numerical fluxes and of the jump term, as the finite-volume update sees them: arbitrary functions of
// both states, the axis and the material (C05 says which); D is recorded together with the scheme it belongs to.
#include "etc/globals.h"
#include "system/objects.h"
#include "solvers/fv/fluxes.h"
#include "h.h"
static VecV any2(const char *n, VecVr L, VecVr R, int d, Par &P) {
  std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(L(i)); for (int i = 0; i < V; i++) a.push_back(R(i)); a.push_back(double(d)); a.push_back(P.ρ0);
  VecV r; for (int i = 0; i < V; i++) r(i) = any_fn(n + S(i), a); return r;
}
VecV Bint(VecVr L, VecVr R, int d, Par &P) { VecV r = any2("Bi", L, R, d, P); for (int i = 0; i < 5; i++) r(i) = 0; return r; }
VecV D_OSH(VecVr L, VecVr R, int d, Par &P) { return any2("Dosh", L, R, d, P); }
VecV D_ROE(VecVr L, VecVr R, int d, Par &P) { return any2("Droe", L, R, d, P); }
VecV D_RUS(VecVr L, VecVr R, int d, Par &P) { return any2("Drus", L, R, d, P); }

// Contracts of the numerical fluxes that free-stream preservation rests on (proved in C05): D(q,q) = 2F(q) and no jump
// term without a jump; off the diagonal they are arbitrary.
#include "etc/globals.h"
#include "system/objects.h"
#include "system/equations.h"
#include "solvers/fv/fluxes.h"
#include "h.h"
static VecV any2(const char *n, VecVr L, VecVr R, int d, Par &P, bool F) {
  std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(L(i)); for (int i = 0; i < V; i++) a.push_back(R(i)); a.push_back(double(d)); a.push_back(P.ρ0);
  VecV r; for (int i = 0; i < V; i++) r(i) = any_fn(n + S(i), a) * (L(i) - R(i)); if (F) { flux(r, L, d, P); flux(r, R, d, P); } return r;
}
VecV Bint(VecVr L, VecVr R, int d, Par &P) { return any2("Bi", L, R, d, P, false); }
VecV D_OSH(VecVr L, VecVr R, int d, Par &P) { return any2("Dosh", L, R, d, P, true); }
VecV D_ROE(VecVr L, VecVr R, int d, Par &P) { return any2("Droe", L, R, d, P, true); }
VecV D_RUS(VecVr L, VecVr R, int d, Par &P) { return any2("Drus", L, R, d, P, true); }

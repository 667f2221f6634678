// What the iteration for the interface state sees of its parts: arbitrary changes of the states; when it settles is prescribed.
#include "gpr.h"
#include "system/multi/riemann.h"
#include "system/relaxation/analytic.h"
#include "contract_star.h"
Star STAR;
static std::vector<double> args(VecVr Q, Par &P) { std::vector<double> a{P.ρ0}; for (int i = 0; i < V; i++) a.push_back(Q(i)); return a; }
void star_stepper(VecVr QL, VecVr QR, Par &L, Par &R) {
  auto a = args(QL, L), b = args(QR, R); a.insert(a.end(), b.begin(), b.end()); double h = any_fn("star", a); STAR.steps++;
  for (int i = 0; i < V; i++) { QL(i) = any_fn("l" + S(i), {h}); QR(i) = any_fn("r" + S(i), {h}); } if (STAR.steps == STAR.nan_at) QL(7) = not_a_number();
}
void ode_stepper_analytic(VecVr Q, double dt, Par &P) { auto a = args(Q, P); a.push_back(dt); bool bad = false; for (int i = 0; i < V; i++) bad |= std::isnan(Q(i)); if (bad) return; double h = any_fn("relax", a); for (int i = 5; i < V; i++) Q(i) = any_fn("x" + S(i), {h}); }
bool check_star_convergence(VecVr QL, VecVr QR, Par &L, Par &R) { STAR.tests++; return STAR.steps >= STAR.settle || (STAR.nan_at && STAR.steps >= STAR.nan_at); }

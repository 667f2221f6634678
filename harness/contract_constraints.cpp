// What one star iteration sees of the wave fan and of the energy: an arbitrary matrix for each side, an arbitrary energy.
#include "gpr.h"
#include "system/multi/riemann.h"
MatV_V riemann_constraints(VecVr Q, double sgn, Par &P) {
  std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(sgn); a.push_back(P.ρ0); double h = any_fn("side", a); MatV_V R = MatV_V::Zero();
  for (int j = 0; j < n1; j++) for (int i = 0; i < 11 + n1; i++) if (i < 5 || i >= 11) R(i, j) = any_fn("R" + S(i) + "_" + S(j), {h}); return R;
}
static double E(double ρ, double p, Mat3_3r A, const std::vector<double> &more, Params &P) { std::vector<double> a{ρ, p, P.ρ0}; for (int i = 0; i < 9; i++) a.push_back(A(i / 3, i % 3)); for (auto &x : more) a.push_back(x); return any_fn("E" + S((int)more.size()), a); }
double total_energy(double ρ, double p, Mat3_3r A, Vec3r v, Par &P) { return E(ρ, p, A, {v(0), v(1), v(2)}, P); }
double total_energy(double ρ, double p, Mat3_3r A, Vec3r v, double λ, Par &P) { return E(ρ, p, A, {v(0), v(1), v(2), λ}, P); }
double total_energy(double ρ, double p, Mat3_3r A, Vec3r J, Vec3r v, Par &P) { return E(ρ, p, A, {J(0), J(1), J(2), v(0), v(1), v(2)}, P); }
double total_energy(double ρ, double p, Mat3_3r A, Vec3r J, Vec3r v, double λ, Par &P) { return E(ρ, p, A, {J(0), J(1), J(2), v(0), v(1), v(2), λ}, P); }

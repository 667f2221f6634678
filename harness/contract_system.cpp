// Contracts of the system functions, as their callers see them: flux adds an arbitrary function of (Q, d, MP);
// Bdot is linear in its vector, with arbitrary coefficients in the non-conservative rows only; source, the system
// matrix and the wave speed are arbitrary functions. C03, C04 and C21 prove the real functions meet these.
#include "etc/globals.h"
#include "system/objects.h"
#include "system/equations.h"
#include "system/eig.h"
#include "h.h"
static std::vector<double> args(VecVr Q, int d, Par &P) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(double(d)); a.push_back(P.ρ0); return a; }
static std::vector<double> bargs(VecVr Q, int d) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(double(d)); return a; }
void flux(VecVr ret, VecVr Q, int d, Par &P) { auto a = args(Q, d, P); for (int i = 0; i < V - LSET; i++) ret(i) += any_fn("F" + S(i), a); }
void source(VecVr ret, VecVr Q, Par &P) { auto a = args(Q, 0, P); ret.setZero(); for (int i = 2; i < V - LSET; i++) ret(i) = any_fn("S" + S(i), a); }
static bool nonconservative(int i, int j) { return (i >= 5 && i < 14 && j >= 5 && j < 14) || (i >= V - LSET && i == j); }
void Bdot(VecVr ret, VecVr Q, VecVr x, int d, Par &P) {
  auto a = bargs(Q, d); VecV y = VecV::Zero();
  for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) if (nonconservative(i, j)) y(i) += any_fn("B" + S(i) + "_" + S(j), a) * x(j);
  ret = y;
}
void block(MatV_Vr ret, VecVr Q, int d) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(double(d)); for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) if (nonconservative(i, j)) ret(i, j) = any_fn("B" + S(i) + "_" + S(j), a); }
MatV_V system_matrix(VecVr Q, int d, Par &P) { auto a = args(Q, d, P); MatV_V M; for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) M(i, j) = any_fn("M" + S(i) + "_" + S(j), a); return M; }
double max_abs_eigs(VecVr Q, int d, Par &P) { return any_fn("lam", args(Q, d, P)); }

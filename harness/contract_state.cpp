// What the eigenvectors and the Riemann constraints see of the state: arbitrary pressure, stress, temperature, sound speeds and
// their derivatives (C01, C02 and C21 prove which they are).
#include "gpr.h"
static double state(VecVr Q, Par &P) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(P.ρ0); return any_fn("state", a); }
static double elastic(const double &ρ, const double &cs2, Mat3_3r A) { std::vector<double> a{ρ, cs2}; for (int i = 0; i < 9; i++) a.push_back(A(i / 3, i % 3)); return any_fn("elastic", a); }
static double Pi(const double &h, int i, int j, int m, int n) { return any_fn("Pi" + S(std::min(i, j)) + S(std::max(i, j)) + S(m) + S(n), {h}); }
double pressure(VecVr Q, Par &P) { return any_fn("p", {state(Q, P)}); }
Vec3 sigma(VecVr Q, Par &P, int d) { double h = state(Q, P); Vec3 r; for (int i = 0; i < 3; i++) r(i) = any_fn("sig" + S(std::min(i, d)) + S(std::max(i, d)), {h}); return r; }
Vec3 dsigmadρ(VecVr Q, Par &P, int d) { double h = state(Q, P); Vec3 r; for (int i = 0; i < 3; i++) r(i) = any_fn("sigr" + S(std::min(i, d)) + S(std::max(i, d)), {h}); return r; }
Mat3_3 dsigmadA(VecVr Q, Par &P, int d) { Mat3_3 A = get_A(Q); double ρ = Q(0), h = elastic(ρ, c_s2(ρ, P), A); Mat3_3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r(i, j) = Pi(h, d, i, j, d); return r; }
double dsigmadA(double ρ, double cs2, Mat3_3r A, Mat3_3r G, Mat3_3r AdevG, int i, int j, int m, int n) { return Pi(elastic(ρ, cs2, A), i, j, m, n); }
double temperature_prim(double ρ, double p, Params &P) { return any_fn("T", {ρ, p, P.ρ0}); }
double temperature(VecVr Q, Par &P) { return any_fn("T", {double(Q(0)), pressure(Q, P), P.ρ0}); }
double dTdρ(double ρ, double p, Params &P) { return any_fn("Tr", {ρ, p, P.ρ0}); }
double dTdp(double ρ, Params &P) { return any_fn("Tp", {ρ, P.ρ0}); }
double c_0(VecVr Q, Par &P) { return any_fn("c0", {state(Q, P)}); }
double c_h(double ρ, double T, Par &P) { return any_fn("ch", {ρ, T, P.ρ0}); }

// The three numerical fluxes against their definitions, for any flux function, system matrix and wave speed.
#include "gpr.h"
#include "solvers/fv/fluxes.h"
#include "eigen3/Eigenvalues"
static VecV F2(VecV L, VecV R, int d, Par &P) { VecV F = VecV::Zero(); flux(F, L, d, P); flux(F, R, d, P); return F; }
// |J| x through the decomposition J = R diag(l) L the library promises
static VecV absJ(const MatV_V &J, const VecV &x) {
  Eigen::EigenSolver<MatV_V> es(J); Eigen::Matrix<std::complex<double>, V, 1> xc = x.cast<std::complex<double>>();
  Eigen::Matrix<std::complex<double>, V, 1> b = es.eigenvectors().colPivHouseholderQr().solve(xc); auto l = es.eigenvalues();
  for (int i = 0; i < V; i++) b(i) = b(i) * abs(l(i));
  Eigen::Matrix<std::complex<double>, V, 1> y = es.eigenvectors() * b; return y.real();
}
#define U3(name, fn, call) UNIT(name##_x, fn) { call(0); } UNIT(name##_y, fn) { call(1); } UNIT(name##_z, fn) { call(2); }
typedef VecV (*DF)(VecVr, VecVr, int, Par &);
static const DF DS[3] = {D_RUS, D_ROE, D_OSH}; static const char *DN[3] = {"rusanov", "roe", "osher"};
static void rus(int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV L = make_Q("L"), R = make_Q("R"); req_hyperbolic(L, P); req_hyperbolic(R, P); double a = max_abs_eigs(L, d, P), b = max_abs_eigs(R, d, P); double m = a > b ? a : b;
  VecV D = D_RUS(L, R, d, P), F = F2(L, R, d, P); for (int i = 0; i < V; i++) eq(D(i), F(i) + m * (L(i) - R(i)), "rusanov[" + S(i) + "]");
  VecV E = D_RUS(R, L, d, P); for (int i = 0; i < V; i++) eq(D(i) + E(i), 2 * F(i), "dissipation changes sign with the states[" + S(i) + "]");
}
U3(rusanov_law, "D_RUS max_abs_eigs flux", rus)
static void roe(int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV L = make_Q("L"), R = make_Q("R"); VecV x = L - R; MatV_V J = MatV_V::Zero();
  for (int i = 0; i < N; i++) { VecV q = R + NODES(i) * x; req_gt(q(0), 0); J += WGHTS(i) * system_matrix(q, d, P); }
  VecV D = D_ROE(L, R, d, P), F = F2(L, R, d, P), y = absJ(J, x); for (int i = 0; i < V; i++) eq(D(i), F(i) + y(i), "roe[" + S(i) + "]");
}
U3(roe_law, "D_ROE system_matrix flux", roe)
static void osh(int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV L = make_Q("L"), R = make_Q("R"); VecV x = L - R, y = VecV::Zero();
  for (int i = 0; i < N; i++) { VecV q = R + NODES(i) * x; req_gt(q(0), 0); MatV_V J = system_matrix(q, d, P); y += WGHTS(i) * absJ(J, x); }
  VecV D = D_OSH(L, R, d, P), F = F2(L, R, d, P); for (int i = 0; i < V; i++) eq(D(i), F(i) + y(i), "osher[" + S(i) + "]");
}
U3(osher_law, "D_OSH system_matrix flux", osh)

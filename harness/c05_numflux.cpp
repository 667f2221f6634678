// Numerical fluxes: consistent, dissipation = |system matrix| along the straight path, path-conservative jump term.
#include "gpr.h"
#include "solvers/fv/fluxes.h"
#include "eigen3/Eigenvalues"
static VecV F2(VecV L, VecV R, int d, Par &P) { VecV F = VecV::Zero(); flux(F, L, d, P); flux(F, R, d, P); return F; }
// |J| x through the decomposition J = R diag(l) L the library promises
static VecV absJ(const MatV_V &J, const VecV &x) {
  Eigen::EigenSolver<MatV_V> es(J); Eigen::Matrix<std::complex<double>, V, 1> xc = x.cast<std::complex<double>>();
  Eigen::Matrix<std::complex<double>, V, 1> b = es.eigenvectors().colPivHouseholderQr().solve(xc); auto l = es.eigenvalues();
  for (int i = 0; i < V; i++) b(i) = b(i) * abs(l(i));
  Eigen::Matrix<std::complex<double>, V, 1> y = es.eigenvectors() * b; return y.real();
}
typedef VecV (*DF)(VecVr, VecVr, int, Par &);
static const DF DS[3] = {D_RUS, D_ROE, D_OSH}; static const char *DN[3] = {"rusanov", "roe", "osher"};
static void consistent(int f, int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV Q = make_Q(); VecV L = Q, R = Q;
  VecV D = DS[f](L, R, d, P), F = F2(Q, Q, d, P); eqm(D, F, std::string(DN[f]) + " D(q,q) = 2F(q)"); eqm(L, Q, "left state kept"); eqm(R, Q, "right state kept");
}
#define U3(name, fn, call) UNIT(name##_x, fn) { call(0); } UNIT(name##_y, fn) { call(1); } UNIT(name##_z, fn) { call(2); }
static void c0(int d) { consistent(0, d); } static void c1(int d) { consistent(1, d); } static void c2(int d) { consistent(2, d); }
U3(rusanov_consistent, "D_RUS", c0)
U3(roe_consistent, "D_ROE", c1)
U3(osher_consistent, "D_OSH", c2)
static void bint(int d) {
  Par P = make_par_r(STIFFENED_GAS, false); VecV L = make_Q("L"), R = make_Q("R"); VecV x = R - L, y = VecV::Zero(), t;
  for (int i = 0; i < N; i++) { VecV q = L + NODES(i) * x; req_gt(q(0), 0); MatV_V B = MatV_V::Zero(); block(B, q, d); y += WGHTS(i) * (B * x); }
  VecV b = Bint(L, R, d, P), b2 = Bint(R, L, d, P), z = Bint(L, L, d, P); eqm(b, y, "path integral of B"); for (int i = 0; i < V; i++) { eq(b(i), -b2(i), "reversing the path changes the sign[" + S(i) + "]"); eq(z(i), 0, "no jump, no term[" + S(i) + "]"); if (i < 5 || (i >= 14 && i < V - LSET)) eq(b(i), 0, "conserved quantities have no jump term[" + S(i) + "]"); }
}
U3(jump, "Bint Bdot block", bint)

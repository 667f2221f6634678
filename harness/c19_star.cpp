// One iteration towards the interface states: the change on each side is that of its outgoing waves, with strengths for which
// (to first order) traction and velocity - normal components only, where the materials slip - and, with heat conduction,
// temperature and heat flux agree; next to a vacuum the traction and the heat flux vanish.
#include "gpr.h"
#include "system/multi/conditions.h"
#include "system/multi/riemann.h"
#include "system/multi/eigenvecs.h"
#include "system/multi/rotations.h"
bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) OPTIONAL;
static VecV state(const std::string &s, Par &P) { VecV Q = make_Q(s); if (!is_symbolic()) { Q(1) = 10 * Q(0); for (int i = 2; i < V; i++) Q(i) = .05 * Q(i) + (i == 5 || i == 9 || i == 13 ? 1 : 0); if (P.EOS > -1) req_hyperbolic(Q, P); } return Q; }
static MatV_V any_R(const std::string &s) { MatV_V R; for (int i = 0; i < V; i++) for (int j = 0; j < V; j++) R(i, j) = in_any(s + S(i) + "_" + S(j)); return R; }
static Vec any_x(const std::string &s) { Vec x(n1); for (int i = 0; i < n1; i++) x(i) = in_any(s + S(i)); return x; }
// velocity (and thermal impulse) behind the waves of one side when the traction (and temperature) there is x
static Vec behind(MatV_V &R, VecV &Q, const Vec &x, const Vec &x0) { Vec y(n1); for (int i = 0; i < n1; i++) { y(i) = i < 3 ? Q(2 + i) / Q(0) : Q(14) / Q(0); for (int j = 0; j < n1; j++) y(i) += R(11 + i, j) * (x(j) - x0(j)); } return y; }
static void agree(MatV_V &RL, MatV_V &RR, VecV &QL, VecV &QR, const Vec &x, const Vec &xL, const Vec &xR, bool stick, const std::string &n) {
  Vec a = behind(RL, QL, x, xL), b = behind(RR, QR, x, xR); eq(a(0), b(0), n + "normal velocity"); if (n1 > 3) eq(a(3), b(3), n + "normal thermal impulse");
  for (int i = 1; i < 3; i++) if (stick) eq(a(i), b(i), n + "tangential velocity " + S(i)); else eq(x(i), 0, n + "no tangential traction " + S(i));
}
static void bcs(bool stick) {
  MatV_V RL = any_R("L"), RR = any_R("R"); VecV QL = make_Q("a"), QR = make_Q("b"); Vec xL = any_x("xL"), xR = any_x("xR"), x(n1); Mat D(n1, n1); for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) D(i, j) = RL(11 + i, j) - RR(11 + i, j);
  if (stick) req_ne(D.determinant(), 0); else if (n1 > 3) { Mat E(2, 2); E << D(0, 0), D(0, 3), D(3, 0), D(3, 3); req_ne(E.determinant(), 0); } else req_ne(D(0, 0), 0);
  auto l = RL; auto r = RR; auto a = QL, b = QR; Vec p = xL, q = xR; if (stick) stick_bcs(x, l, r, a, b, p, q); else slip_bcs(x, l, r, a, b, p, q); agree(RL, RR, QL, QR, x, xL, xR, stick, "");
}
UNIT(slip, "slip_bcs") { bcs(false); }
UNIT(stick, "stick_bcs") { bcs(true); }
static Vec traction(VecV &Q, Par &P) { Vec x(n1); x.head<3>() = Sigma(Q, P, 0); if (n1 > 3) x(3) = temperature(Q, P); return x; }
static void changed(VecV &Q0, VecV &Q1, MatV_V &R, const Vec &c, Par &P, const std::string &n) {
  VecV W = Cvec_to_Pvec(Q0, P); for (int j = 0; j < n1; j++) W += R.col(j) * c(j); VecV W1 = Pvec_to_Cvec(W, P); for (int i = 0; i < V; i++) eq(Q1(i), W1(i), n + "[" + S(i) + "]");
}
static void positive(VecV &Q, MatV_V &R, const Vec &c, Par &P) { double r = Q(0); for (int j = 0; j < n1; j++) r = r + R(0, j) * c(j); req_gt(r, 0); }
static void two_materials(int eosL, int eosR) {
  Par PL = make_par_r(EOSES[eosL], false, "_l"), PR = make_par_r(EOSES[eosR], false, "_r"); VecV QL = state("l", PL), QR = state("r", PR); in_domain(PL, QL(0)); in_domain(PR, QR(0));
  MatV_V RL = riemann_constraints(QL, 1, PL), RR = riemann_constraints(QR, -1, PR); Vec xL = traction(QL, PL), xR = traction(QR, PR), x(n1);
  { Mat D(n1, n1); for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) D(i, j) = RL(11 + i, j) - RR(11 + i, j); if (n1 > 3) { Mat E(2, 2); E << D(0, 0), D(0, 3), D(3, 0), D(3, 3); req_ne(E.determinant(), 0); } else req_ne(D(0, 0), 0); req_ne(D.determinant(), 0); }
  { auto l = RL; auto r = RR; auto a = QL, b = QR; Vec p = xL, q = xR; if (RIEMANN_STICK) stick_bcs(x, l, r, a, b, p, q); else slip_bcs(x, l, r, a, b, p, q); }
  Vec cL = x - xL, cR = x - xR; positive(QL, RL, cL, PL); positive(QR, RR, cR, PR); VecV a = QL, b = QR; star_stepper(a, b, PL, PR);
  changed(QL, a, RL, cL, PL, "left state"); changed(QR, b, RR, cR, PR, "right state"); agree(RL, RR, QL, QR, x, xL, xR, RIEMANN_STICK, "interface: ");
}
UNIT(two_materials_sg, "star_stepper Cvec_to_Pvec Pvec_to_Cvec") { two_materials(0, 0); }
UNIT(two_materials_mixed, "star_stepper Cvec_to_Pvec Pvec_to_Cvec") { two_materials(1, 4); }
UNIT(vacuum, "star_stepper") {
  Par PL = make_par_r(STIFFENED_GAS, false, "_l"), PR = make_par_r(STIFFENED_GAS, false, "_r"); PR.EOS = VACUUM; VecV QL = state("l", PL), QR = make_Q("r"); MatV_V RL = riemann_constraints(QL, 1, PL); Vec xL = traction(QL, PL), c = -xL;
  if (n1 > 3) { req_ne(RL(14, 3), 0); c(3) = -double(QL(14) / QL(0)); for (int j = 0; j < 3; j++) c(3) = c(3) - RL(14, j) * c(j); c(3) = c(3) / RL(14, 3); }
  positive(QL, RL, c, PL); VecV a = QL, b = QR; star_stepper(a, b, PL, PR); changed(QL, a, RL, c, PL, "state next to the vacuum"); if (n1 > 3) eq(a(14), 0, "no heat flux into the vacuum"); for (int i = 0; i < V; i++) eq(b(i), 0, "the vacuum stays empty[" + S(i) + "]");
}
// settled: interface conditions met to the tolerance, in units of the material
static void settled(bool vac) {
  if (!check_star_convergence) return; Par PL = make_par_r(STIFFENED_GAS, false, "_l"), PR = make_par_r(STIFFENED_GAS, false, "_r"); if (vac) PR.EOS = VACUUM; VecV QL = state("l", PL), QR = state("r", PR); if (n1 > 3) { PL.T0 = in_pos("T0l"); PR.T0 = in_pos("T0r"); }
  Vec a = traction(QL, PL), b = a * 0; if (!vac) b = traction(QR, PR); bool ok = true; real_double tol = 1e-8;
  auto lower = [](double x, double y) { if (y < x) return y; return x; }; double r0 = PL.ρ0, b2 = PL.b02; if (!vac) { r0 = lower(PL.ρ0, PR.ρ0); b2 = lower(PL.b02, PR.b02); }
  auto small = [&](double d, double unit) { if (d < 0) d = -d; if (!(d < tol * unit)) ok = false; };
  for (int i = 0; i < 3; i++) if (i == 0 || vac || RIEMANN_STICK) small(a(i) - b(i), b2 * r0); if (!vac) for (int i = 0; i < 3; i++) if (i == 0 || RIEMANN_STICK) small(QL(2 + i) / QL(0) - QR(2 + i) / QR(0), sqrt(b2));
  if (n1 > 3) {
    auto q = [](VecV &Q, Par &P) -> double { double T = temperature(Q, P); return P.cα2 * T * Q(14) / Q(0); }; auto unit = [](Par &P) -> double { return P.cα2 / P.ρ0 * P.T0 * sqrt(P.T0 / P.cv); };
    if (vac) small(q(QL, PL), unit(PL)); else { small(q(QL, PL) - q(QR, PR), lower(unit(PL), unit(PR))); small(temperature(QL, PL) - temperature(QR, PR), lower(PL.T0, PR.T0)); }
  }
  VecV l = QL, r = QR; bool got = check_star_convergence(l, r, PL, PR); ensure(got == ok, "converged exactly when every mismatch is below the tolerance"); for (int i = 0; i < V; i++) eq(l(i), QL(i), "state kept[" + S(i) + "]");
}
UNIT(settled_pair, "check_star_convergence") { settled(false); }
UNIT(settled_vacuum, "check_star_convergence") { settled(true); }

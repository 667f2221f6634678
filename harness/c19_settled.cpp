// When the iteration at the interface may stop.
#include "gpr.h"
#include "system/multi/riemann.h"
#include "system/objects.h"
bool check_star_convergence(VecVr QL_, VecVr QR_, Par &MPL, Par &MPR) OPTIONAL;
static VecV state(const std::string &s, Par &P) { VecV Q = make_Q(s); if (!is_symbolic()) { Q(1) = 10 * Q(0); for (int i = 2; i < V; i++) Q(i) = .05 * Q(i) + (i == 5 || i == 9 || i == 13 ? 1 : 0); if (P.EOS > -1) req_hyperbolic(Q, P); } return Q; }
static Vec traction(VecV &Q, Par &P) { Vec x(n1); x.head<3>() = Sigma(Q, P, 0); if (n1 > 3) x(3) = temperature(Q, P); return x; }
// settled: interface conditions met to the tolerance, in units of the material
static void settled(VecV QL, VecV QR, Par PL, Par PR, bool vac) {
  if (!check_star_convergence) return;
  Vec a = traction(QL, PL), b = a * 0; if (!vac) b = traction(QR, PR); bool ok = true; real_double tol = 1e-8;
  auto lower = [](double x, double y) { if (y < x) return y; return x; }; double r0 = PL.ρ0, b2 = PL.b02; if (!vac) { r0 = lower(PL.ρ0, PR.ρ0); b2 = lower(PL.b02, PR.b02); }
  auto small = [&](double d, double unit) { if (d < 0) d = -d; if (!(d < tol * unit)) ok = false; };
  for (int i = 0; i < 3; i++) if (i == 0 || vac || RIEMANN_STICK) small(a(i) - b(i), b2 * r0); if (!vac) for (int i = 0; i < 3; i++) if (i == 0 || RIEMANN_STICK) small(QL(2 + i) / QL(0) - QR(2 + i) / QR(0), sqrt(b2));
  if (n1 > 3) {
    auto q = [](VecV &Q, Par &P) -> double { double T = temperature(Q, P); return P.cα2 * T * Q(14) / Q(0); }; auto unit = [](Par &P) -> double { return P.cα2 / P.ρ0 * P.T0 * sqrt(P.T0 / P.cv); };
    if (vac) small(q(QL, PL), unit(PL)); else { small(q(QL, PL) - q(QR, PR), lower(unit(PL), unit(PR))); small(temperature(QL, PL) - temperature(QR, PR), lower(PL.T0, PR.T0)); }
  }
  VecV l = QL, r = QR; bool got = check_star_convergence(l, r, PL, PR); ensure(got == ok, "converged exactly when every mismatch is below the tolerance"); for (int i = 0; i < V; i++) eq(l(i), QL(i), "state kept[" + S(i) + "]");
}
// the same material in two states that differ in one way only, so that one mismatch decides
static void one_mismatch(int what) { Par P = make_par_r(STIFFENED_GAS, false, "_l"); VecV Q = state("l", P), R = Q; if (n1 > 3) P.T0 = in_pos("T0l"); double d = in_any("mismatch");
  if (what < 3) { double v = Q(2 + what) / Q(0), w = v + d; R(2 + what) = Q(0) * w; R(1) = Q(1) + Q(0) * (w * w - v * v) / 2; } // velocity
  else if (what == 3) { if (!is_symbolic()) d = d * .05; R(1) = Q(1) + d; } // pressure and temperature
  else if (n1 > 3) { double j = Q(14) / Q(0), k = j + d; R(14) = Q(0) * k; R(1) = Q(1) + P.cα2 * Q(0) * (k * k - j * j) / 2; } // heat flux
  settled(Q, R, P, P, false); settled(R, Q, P, P, false); }
UNIT(settled_normal_velocity, "check_star_convergence") { one_mismatch(0); }
UNIT(settled_slip, "check_star_convergence") { one_mismatch(1); one_mismatch(2); }
UNIT(settled_pressure, "check_star_convergence") { one_mismatch(3); }
UNIT(settled_heat, "check_star_convergence") { one_mismatch(4); }
// next to the vacuum, a body stretched along one axis of the interface or sheared along it
UNIT(settled_free, "check_star_convergence") { for (int k = 0; k < 2; k++) { Par P = make_par_r(STIFFENED_GAS, false, "_l"), E = P; E.EOS = VACUUM; VecV Q = state("l", P); if (n1 > 3) P.T0 = in_pos("T0l"); for (int i = 0; i < 9; i++) if (!(k == 1 && i == 1)) Q(5 + i) = i % 4 ? 0 : 1; settled(Q, Q, P, E, true); } }

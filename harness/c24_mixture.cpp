// Mixtures of two equations of state: the closure solved, what is read off it, and the derivatives along it.
#include "gpr.h"
#include "contract_solver.h"
static Par two(int k, int l) { Par P = make_par_r(EOSES[k], true); P.MULTI = true; Par R = make_par(EOSES[l], "_2"); P.MP2 = R; return P; }
static VecV state(Par &P, double l) { VecV Q = make_Q(); Q(mV) = l * Q(0); return Q; }
static double pos(double x) { return x < 0 ? double(0) : x; }
static double first(VecV Q, Par &P) { return internal_energy(Q, P); }
// a pure cell is a cell of that material alone
static void pure(int k, int l) {
  if (!MULTI) return;
  Par P = two(k, l); for (int w = 0; w < 2; w++) {
    VecV Q = state(P, w ? double(0) : double(1)); double r = Q(0), e = first(Q, P); in_domain(P, r); in_domain((Par &)P, r);
    if (P.EOS == SHOCK_MG) req_ne(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r)); if (P.MP2.EOS == SHOCK_MG) req_ne(1 / P.MP2.ρ0, P.MP2.s * (1 / P.MP2.ρ0 - 1 / r));
    solved = Solved(); std::string n = w ? " (second material only)" : " (first material only)";
    double want = pos(pressure_mg(r, e, w ? P.MP2 : (Params &)P)); Vec3 x = solve_multi(Q, P);
    ensure(solved.calls == 0, "no equations to solve" + n); eq(x(0), want, "pressure of that material, never negative" + n); eq(x(1), r, "first density" + n); eq(x(2), r, "second density" + n); eq(pressure(Q, P), want, "pressure of the state" + n);
  }
}
// a mixed cell: volumes add, energies add, temperatures agree, and the solver starts from the averages
static void mixed(int k, int l) {
  if (!MULTI) return;
  Par P = two(k, l); double lam = in_range("lambda", 0, 1); req_gt(lam, 0); req_gt(1, lam); VecV Q = state(P, lam); double r = Q(0), e = first(Q, P);
  if (P.EOS == SHOCK_MG) { req_gt(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r)); } if (P.MP2.EOS == SHOCK_MG) { req_gt(1 / P.MP2.ρ0, P.MP2.s * (1 / P.MP2.ρ0 - 1 / r)); }
  solved = Solved(); Vec3 x = solve_multi(Q, P); ensure(solved.calls == 1, "one system is solved"); if (solved.calls != 1) return;
  double p = x(0), r1 = x(1), r2 = x(2); eq(p, solved.x(0), "pressure solved for"); eq(r1, solved.x(1), "density solved for");
  req_gt(r1, lam * r);                                    // the second material has some volume
  eq(1 / r, lam / r1 + (1 - lam) / r2, "volumes add up"); gt(r2, 0, "the second density is positive");
  if (P.EOS == SHOCK_MG) { req_gt(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / r1)); } if (P.MP2.EOS == SHOCK_MG) { req_gt(1 / P.MP2.ρ0, P.MP2.s * (1 / P.MP2.ρ0 - 1 / r2)); }
  Vec y = solved.x, f = solved.F(y); ensure(f.size() == 2, "two equations");
  eq(f(0), e - lam * E_1(r1, p, P) - (1 - lam) * E_1(r2, p, P.MP2), "the first says that energies add up");
  eq(f(1), temperature_mg(r1, p, P) - temperature_mg(r2, p, P.MP2), "the second says that temperatures agree");
  eq(solved.x0(0), pos(lam * pressure_mg(r, e, P) + (1 - lam) * pressure_mg(r, e, P.MP2)), "first pressure"); eq(solved.x0(1), r, "first density");
  gt(solved.tol, 0, "tolerance positive"); gt(0.0001, solved.tol, "tolerance small");
}
UNIT(pure_SG_SG, "solve_multi pressure internal_energy pressure_mg") { pure(0, 0); }
UNIT(pure_SG_SMG, "solve_multi pressure internal_energy pressure_mg") { pure(0, 1); }
UNIT(pure_SG_JWL, "solve_multi pressure internal_energy pressure_mg") { pure(0, 2); }
UNIT(pure_SG_CC, "solve_multi pressure internal_energy pressure_mg") { pure(0, 3); }
UNIT(pure_SG_GR, "solve_multi pressure internal_energy pressure_mg") { pure(0, 4); }
UNIT(pure_SMG_SG, "solve_multi pressure internal_energy pressure_mg") { pure(1, 0); }
UNIT(pure_SMG_SMG, "solve_multi pressure internal_energy pressure_mg") { pure(1, 1); }
UNIT(pure_SMG_JWL, "solve_multi pressure internal_energy pressure_mg") { pure(1, 2); }
UNIT(pure_SMG_CC, "solve_multi pressure internal_energy pressure_mg") { pure(1, 3); }
UNIT(pure_SMG_GR, "solve_multi pressure internal_energy pressure_mg") { pure(1, 4); }
UNIT(pure_JWL_SG, "solve_multi pressure internal_energy pressure_mg") { pure(2, 0); }
UNIT(pure_JWL_SMG, "solve_multi pressure internal_energy pressure_mg") { pure(2, 1); }
UNIT(pure_JWL_JWL, "solve_multi pressure internal_energy pressure_mg") { pure(2, 2); }
UNIT(pure_JWL_CC, "solve_multi pressure internal_energy pressure_mg") { pure(2, 3); }
UNIT(pure_JWL_GR, "solve_multi pressure internal_energy pressure_mg") { pure(2, 4); }
UNIT(pure_CC_SG, "solve_multi pressure internal_energy pressure_mg") { pure(3, 0); }
UNIT(pure_CC_SMG, "solve_multi pressure internal_energy pressure_mg") { pure(3, 1); }
UNIT(pure_CC_JWL, "solve_multi pressure internal_energy pressure_mg") { pure(3, 2); }
UNIT(pure_CC_CC, "solve_multi pressure internal_energy pressure_mg") { pure(3, 3); }
UNIT(pure_CC_GR, "solve_multi pressure internal_energy pressure_mg") { pure(3, 4); }
UNIT(pure_GR_SG, "solve_multi pressure internal_energy pressure_mg") { pure(4, 0); }
UNIT(pure_GR_SMG, "solve_multi pressure internal_energy pressure_mg") { pure(4, 1); }
UNIT(pure_GR_JWL, "solve_multi pressure internal_energy pressure_mg") { pure(4, 2); }
UNIT(pure_GR_CC, "solve_multi pressure internal_energy pressure_mg") { pure(4, 3); }
UNIT(pure_GR_GR, "solve_multi pressure internal_energy pressure_mg") { pure(4, 4); }
UNIT(mixed_SG_SG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(0, 0); }
UNIT(mixed_SG_SMG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(0, 1); }
UNIT(mixed_SG_JWL, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(0, 2); }
UNIT(mixed_SG_CC, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(0, 3); }
UNIT(mixed_SG_GR, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(0, 4); }
UNIT(mixed_SMG_SG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(1, 0); }
UNIT(mixed_SMG_SMG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(1, 1); }
UNIT(mixed_SMG_JWL, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(1, 2); }
UNIT(mixed_SMG_CC, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(1, 3); }
UNIT(mixed_SMG_GR, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(1, 4); }
UNIT(mixed_JWL_SG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(2, 0); }
UNIT(mixed_JWL_SMG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(2, 1); }
UNIT(mixed_JWL_JWL, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(2, 2); }
UNIT(mixed_JWL_CC, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(2, 3); }
UNIT(mixed_JWL_GR, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(2, 4); }
UNIT(mixed_CC_SG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(3, 0); }
UNIT(mixed_CC_SMG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(3, 1); }
UNIT(mixed_CC_JWL, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(3, 2); }
UNIT(mixed_CC_CC, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(3, 3); }
UNIT(mixed_CC_GR, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(3, 4); }
UNIT(mixed_GR_SG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(4, 0); }
UNIT(mixed_GR_SMG, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(4, 1); }
UNIT(mixed_GR_JWL, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(4, 2); }
UNIT(mixed_GR_CC, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(4, 3); }
UNIT(mixed_GR_GR, "solve_multi obj average_pressure E_1 temperature_mg pressure_mg") { mixed(4, 4); }

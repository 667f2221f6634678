// Shared preconditions: well-formed parameter sets and states of the GPR model.
#pragma once
#include "etc/globals.h"
#include "system/objects.h"
#include "system/energy/derivatives.h"
#include "system/energy/eos.h"
#include "system/energy/mg.h"
#include "system/energy/multi.h"
#include "system/equations.h"
#include "system/jacobians.h"
#include "system/eig.h"
#include "system/functions/matrices.h"
#include "system/functions/vectors.h"
#include "system/variables/sources.h"
#include "system/variables/state.h"
#include "system/waves/shear.h"
#include "system/waves/speeds.h"
#include "h.h"
typedef Reals DV;

static const int ARRHENIUS_ = 1;
static const int EOSES[5] = {STIFFENED_GAS, SHOCK_MG, JWL, COCHRAN_CHAN, GODUNOV_ROMENSKI};
static const char *EOSN[5] = {"SG", "SMG", "JWL", "CC", "GR"};

inline void set_eos(Params &P, int eos, const std::string &s) {
  P.EOS = eos; P.ρ0 = in_pos("rho0" + s); P.Tref = in_pos("Tref" + s); P.cv = in_pos("cv" + s);
  P.pINF = in_pos("pINF" + s); P.Γ0 = in_pos("G0" + s); P.c02 = in_pos("c02" + s); P.s = in_pos("s" + s);
  P.α = in_pos("alpha" + s); P.β = in_any("beta" + s);
  P.γ = eos == STIFFENED_GAS ? 1 + in_pos("gamma_1" + s) : in_pos("gamma" + s);
  P.A = in_pos("JA" + s); P.B = in_any("JB" + s); P.R1 = in_pos("R1" + s); P.R2 = in_pos("R2" + s);
  if (eos == COCHRAN_CHAN) { req_ne(P.R1, 1); req_ne(P.R2, 1); }
  P.b02 = in_pos("b02" + s); P.μ = in_pos("mu" + s); P.τ0 = in_pos("tau0" + s); P.σY = in_pos("sY" + s); P.n = in_pos("n" + s);
  P.bf2 = in_pos("bf2" + s); P.bs2 = in_pos("bs2" + s); P.τf = in_pos("tauf" + s); P.τs = in_pos("taus" + s);
  P.cα2 = in_pos("ca2" + s); P.κ = in_pos("kappa" + s);
}
inline Par make_par(int eos, const std::string &s = "") {
  Par P; set_eos(P, eos, s);
  P.SOLID = false; P.POWER_LAW = false; P.MULTI = false; P.BINGHAM = false;
  P.T0 = in_any("T0" + s); for (int i = 0; i < 3; i++) P.δp(i) = in_any(S("dp" + s, i));
  P.REACTION = -1; P.Qc = in_any("Qc" + s);
  P.Kc = in_pos("Kc" + s); P.Ti = in_pos("Ti" + s); P.Bc = in_pos("Bc" + s); P.Ea = in_pos("Ea" + s); P.Rc = in_pos("Rc" + s);
  P.I = in_pos("I" + s); P.G1 = in_pos("G1" + s); P.G2 = in_pos("G2" + s); P.a = in_pos("a" + s); P.b = in_pos("b" + s); P.c = in_pos("c" + s);
  P.d = in_pos("d" + s); P.e = in_pos("e" + s); P.g = in_pos("g" + s); P.x = in_pos("x" + s); P.y = in_pos("y" + s); P.z = in_pos("z" + s);
  P.φI = in_pos("phiI" + s); P.φG1 = in_pos("phiG1" + s); P.φG2 = in_pos("phiG2" + s);
  return P;
}
// any state with positive density
inline VecV make_Q(const std::string &s = "") {
  VecV Q; for (int i = 0; i < V; i++) Q(i) = i == 0 ? in_pos("rho" + s) : in_any(S("q" + s + "_", i));
  return Q;
}
inline Mat3_3 make_A(const std::string &s = "A") { Mat3_3 A; for (int i = 0; i < 9; i++) A(i / 3, i % 3) = in_any(S(s, i)); return A; }
inline Vec3 make_v(const std::string &s) { Vec3 v; for (int i = 0; i < 3; i++) v(i) = in_any(S(s, i)); return v; }
// distance from the point where a piecewise law changes branch: derivatives are taken inside a branch
inline void off_branch(const Params &P, double rho) { if (P.EOS == SHOCK_MG) req_ne(rho, P.ρ0); }
// parameters and state in the domain of the configuration: one material per cell (MULTI mixtures of
// two equations of state need solve_multi and are handled apart), reaction energy only with a reaction
inline Par make_par_r(int eos, bool reactive, const std::string &s = "") {
  Par P = make_par(eos, s); P.REACTION = reactive ? ARRHENIUS_ : -1; if (!reactive) P.Qc = 0; return P;
}
// a hyperbolic state: real sound speeds (where the numbers are those of the machine)
inline void req_hyperbolic(VecV Q, Par &P) { if (!is_symbolic()) for (int d = 0; d < 3; d++) { Mat T = thermo_acoustic_tensor(Q, d, P); for (int i = 0; i < T.size(); i++) req_finite(T.data()[i]); } }
// Gamma must be positive for the energy to determine the pressure; it is for every law: gamma-1, G0 rho0/rho, gamma, G0
inline void in_domain(const Params &P, double rho) {
  if (P.EOS == SHOCK_MG) req_ne(1 / P.ρ0, P.s * (1 / P.ρ0 - 1 / rho)); // the pole of the shock Hugoniot
}

// The time step: no signal crosses more than CFL of a cell, and the last step ends at the final time.
#include "gpr.h"
#include "solvers/iterator.h"
static std::vector<double> args(const VecV &Q, int d, Par &P) { std::vector<double> a; for (int i = 0; i < V; i++) a.push_back(Q(i)); a.push_back(double(d)); a.push_back(P.ρ0); return a; }
static VecV state(int m, int k) { VecV q; for (int i = 0; i < V; i++) q(i) = i == 0 ? in_pos("rho" + S(m) + S(k)) : i < 5 ? in_any("q" + S(m) + S(k) + "_" + S(i)) : double(i + m + k); return q; }
static double mn(const double &a, const double &b) { if (b < a) return b; return a; }
static double mx(const double &a, const double &b) { if (a < b) return b; return a; }
// bits: active cells of the two materials; vac: material 1 is vacuum
static void step(int nd, int ncell, int bits, bool vac, int count) {
  std::vector<Par> P; for (int m = 0; m < 2; m++) P.push_back(make_par_r(STIFFENED_GAS, false, "_" + S(m))); if (vac) P[1].EOS = VACUUM;
  std::vector<Vec> g(2); std::vector<bVec> mk(2); for (int m = 0; m < 2; m++) { g[m] = Vec(ncell * V); mk[m] = bVec(ncell); for (int k = 0; k < ncell; k++) { g[m].segment<V>(k * V) = state(m, k); mk[m](k) = bits >> (m * ncell + k) & 1; } }
  aVec dX(nd); for (int d = 0; d < nd; d++) dX(d) = in_pos("dx" + S(d)); double CFL = in_pos("CFL"), t = in_any("t"), tf = t + in_pos("left");
  std::vector<double> sp; for (int m = 0; m < (vac ? 1 : 2); m++) for (int k = 0; k < ncell; k++) if (mk[m](k)) { double s = 0; VecV q = g[m].segment<V>(k * V); req_hyperbolic(q, P[m]); for (int d = 0; d < nd; d++) { double l = is_symbolic() ? any_fn("lam", args(q, d, P[m])) : max_abs_eigs(q, d, P[m]); req_gt(l, 0); req_finite(l); s = s + l / dX(d); } sp.push_back(s); }
  auto g0 = g; double dt = timestep(g, mk, dX, CFL, t, tf, count, P, 2); std::string n = " (" + S(nd) + "D, mask " + S(bits) + (vac ? ", vacuum" : "") + ", step " + S(count) + ")";
  gt(dt, 0, "positive" + n); ge(tf - t, dt, "does not pass the final time" + n);
  for (auto &s : sp) ge(CFL, dt * s, "no signal crosses more than CFL of a cell" + n);
  double f = count <= 5 ? double(1) / 5 : double(1); double M = sp[0]; for (auto &s : sp) M = mx(M, s);
  eq(dt, mn(f * CFL / M, tf - t), "the step of the fastest cell, or what is left" + n);
  for (int m = 0; m < 2; m++) for (int i = 0; i < ncell * V; i++) eq(g[m](i), g0[m](i), "states are not changed" + n);
}
#define F "timestep"
UNIT(b_one_material, F) { step(1, 2, 3, true, 6); step(1, 2, 1, true, 100); step(1, 2, 2, true, 6); }
UNIT(b_two_materials, F) { step(1, 2, 5, false, 6); step(1, 2, 10, false, 7); }
UNIT(b_two_materials_all, F) { step(1, 2, 15, false, 6); }
UNIT(b_two_axes, F) { step(2, 2, 3, true, 6); step(2, 1, 3, false, 10); step(2, 2, 13, false, 6); }
UNIT(b_first_steps, F) { for (int c = 0; c <= 6; c++) step(1, 1, 3, false, c); }
UNIT(b_vacuum_ignored, F) { step(1, 2, 15, true, 6); step(2, 2, 13, true, 0); }
UNIT(b_three_cells, F) { step(1, 3, 7, true, 6); }

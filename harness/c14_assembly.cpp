// Assembling one grid from the grids of the materials.
#include "gpr.h"
#include "solvers/iterator.h"
OPTIONAL void limit_concentration(Vecr u);
// nmat = LSET + 1 materials; bits: who updated the cell; vac: which material is vacuum (-1: none)
static void cell(int bits, int vac, int ncell) {
  int nm = LSET + 1; std::vector<Par> P(nm); for (int m = 0; m < nm; m++) P[m].EOS = m == vac ? VACUUM : STIFFENED_GAS;
  Vec u(ncell * V); std::vector<Vec> g(nm); std::vector<bVec> mk(nm);
  for (int i = 0; i < ncell * V; i++) u(i) = in_any("u" + S(i));
  for (int m = 0; m < nm; m++) { g[m] = Vec(ncell * V); mk[m] = bVec(ncell); for (int i = 0; i < ncell * V; i++) g[m](i) = in_any("g" + S(m) + "_" + S(i)); for (int k = 0; k < ncell; k++) mk[m](k) = bits >> (k * nm + m) & 1; }
  Vec u0 = u; auto g0 = g; make_u(u, g, mk, P); std::string s = " (updated by " + S(bits) + ", vacuum " + S(vac) + ")";
  for (int k = 0; k < ncell; k++) {
    int cnt = 0; for (int m = 0; m < nm; m++) cnt += mk[m](k); int mi = 0;
    for (int l = V - LSET; l < V; l++) {
      double w = u0(k * V + l); if (cnt) { w = 0; for (int m = 0; m < nm; m++) if (mk[m](k)) w = w + g0[m](k * V + l); w = w / cnt; }
      eq(u(k * V + l), w, "level set is the mean of those that updated the cell" + s); if (w >= 0) mi++;
    }
    for (int v = 0; v < V - LSET; v++) eq(u(k * V + v), mi == vac ? double(0) : g0[mi](k * V + v), "values of the material the level sets name" + s + "[" + S(v) + "]");
  }
  for (int m = 0; m < nm; m++) for (int i = 0; i < ncell * V; i++) eq(g[m](i), g0[m](i), "grids are not changed" + s);
}
#define UM(b) UNIT(b_cell_updated_by_##b, "make_u get_material_index") { cell(b, -1, 1); }
UM(0) UM(1) UM(2) UM(3) UM(4) UM(5) UM(6) UM(7)
UNIT(b_cell_vacuum_0, "make_u get_material_index") { for (int b = 0; b < 8; b += 3) cell(b, 0, 1); }
UNIT(b_cell_vacuum_1, "make_u get_material_index") { for (int b = 0; b < 8; b += 3) cell(b, 1, 1); }
UNIT(b_cell_vacuum_2, "make_u get_material_index") { for (int b = 1; b < 8; b += 3) cell(b, 2, 1); }
UNIT(b_two_cells_a, "make_u get_material_index") { cell(0 + 8 * 5, -1, 2); }
UNIT(b_two_cells_b, "make_u get_material_index") { cell(3, 1, 2); }
UNIT(b_two_cells_c, "make_u get_material_index") { cell(6 + 8 * 2, 2, 2); }
UNIT(b_three_cells, "make_u get_material_index") { cell(1 + 8 * 2 + 64 * 4, -1, 3); }
UNIT(material_index, "get_material_index") {
  VecV Q = make_Q(); VecV Q0 = Q; int n = 0; for (int i = V - LSET; i < V; i++) if (Q0(i) >= 0) n++;
  ensure(get_material_index(Q) == n, "number of non-negative level sets"); for (int i = 0; i < V; i++) eq(Q(i), Q0(i), "state is not changed");
}
UNIT(b_concentration, "limit_concentration") {
  if (!limit_concentration) return; int nc = 3; Vec u(nc * V); for (int i = 0; i < nc * V; i++) u(i) = i % V == 0 ? in_pos("rho" + S(i)) : in_any("u" + S(i)); Vec u0 = u; limit_concentration(u);
  for (int k = 0; k < nc; k++) for (int v = 0; v < V; v++) {
    double a = u0(k * V + v), b = u(k * V + v); if (!MULTI || v != mV) { eq(b, a, "other variables are not changed"); continue; }
    ge(b, 0, "concentration not negative"); ge(u0(k * V), b, "concentration at most the density"); if (a >= 0) { if (a <= u0(k * V)) eq(b, a, "admissible concentrations are kept"); else eq(b, u0(k * V), "clipped to the density"); } else eq(b, 0, "clipped to zero");
  }
}

// Signs, normals, gradients, and the cells along an interface.
#include "gpr.h"
#include "multi/functions.h"
#include "multi/fill.h"
OPTIONAL int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0);
UNIT(sign_of, "sign") { double x = in_any("x"); ensure(sign(x) == (x <= 0 ? -1 : 1), "inside (-1) where the level set is not positive, outside (1) elsewhere"); ensure(sign(0) == -1, "zero is inside"); }
UNIT(unit_normal1, "normal") { Vec g(1); g(0) = in_any("g"); req_ne(g(0), 0); Vec n = normal(g); eq(n(0) * n(0), 1, "unit length"); gt(n(0) * g(0), 0, "points along the gradient"); }
UNIT(unit_normal2, "normal") { Vec g(2); g(0) = in_any("g0"); g(1) = in_any("g1"); req_gt(g(0) * g(0) + g(1) * g(1), 0); Vec n = normal(g); eq(n(0) * n(0) + n(1) * n(1), 1, "unit length"); eq(n(0) * g(1), n(1) * g(0), "parallel to the gradient"); gt(n(0) * g(0) + n(1) * g(1), 0, "points along the gradient"); }
static void grad(int nx, int ny) {
  int nd = ny ? 2 : 1, nc = nx * (ny ? ny : 1); iVec nX(nd); nX(0) = nx; if (ny) nX(1) = ny; aVec dX(nd); for (int d = 0; d < nd; d++) dX(d) = in_pos("dx" + S(d));
  Vec f(nc), f0; for (int i = 0; i < nc; i++) f(i) = in_any("f" + S(i)); f0 = f; Mat G(nc, nd); for (int i = 0; i < nc; i++) for (int d = 0; d < nd; d++) G(i, d) = in_any("G" + S(i) + "_" + S(d)); finite_difference(G, f, dX, nX); std::string s = " " + S(nx) + "x" + S(ny);
  auto F = [&](int i, int j) { return f0(i * (ny ? ny : 1) + j); };
  for (int i = 0; i < nx; i++) for (int j = 0; j < (ny ? ny : 1); j++) {
    int ic = std::min(std::max(i, 1), nx - 2), jc = ny ? std::min(std::max(j, 1), ny - 2) : 0; int k = i * (ny ? ny : 1) + j;
    eq(G(k, 0) * 2 * dX(0), F(ic + 1, j) - F(ic - 1, j), "central difference along the first axis" + s + "[" + S(i) + "," + S(j) + "]");
    if (ny) eq(G(k, 1) * 2 * dX(1), F(i, jc + 1) - F(i, jc - 1), "central difference along the second axis" + s + "[" + S(i) + "," + S(j) + "]");
  }
  for (int i = 0; i < nc; i++) eq(f(i), f0(i), "field is not changed" + s);
}
UNIT(b_gradient1, "finite_difference") { for (int n = 3; n < 9; n++) grad(n, 0); }
UNIT(b_gradient2, "finite_difference") { grad(3, 3); grad(3, 4); grad(4, 3); grad(5, 4); grad(3, 6); }
// what the mask along an interface should be
static int want(const std::vector<int> &s, int nx, int ny, int i, int j) {
  auto at = [&](int a, int b) { return s[a * ny + b]; }; int di[4] = {-1, 1, 0, 0}, dj[4] = {0, 0, -1, 1}; auto in = [&](int a, int b) { return a >= 0 && b >= 0 && a < nx && b < ny; };
  auto isolated = [&](int a, int b) { for (int d = 0; d < 4; d++) if (in(a + di[d], b + dj[d]) && at(a + di[d], b + dj[d]) <= 0) return false; return true; };
  bool inside = at(i, j) <= 0; if (inside && isolated(i, j)) return -2;
  for (int d = 0; d < 4; d++) { int a = i + di[d], b = j + dj[d]; if (!in(a, b)) continue; if (at(i, j) * at(a, b) > 0) continue; if (inside) return -1; if (!isolated(a, b)) return 1; }
  return 0;
}
static void mask2(int nx, int ny, const std::vector<int> &s, const std::string &t) {
  Vec f(nx * ny), f0; for (int k = 0; k < nx * ny; k++) f(k) = s[k] ? s[k] * in_pos("a" + S(k)) : 0; f0 = f; iVec m(nx * ny), nX(2); nX << nx, ny; for (int k = 0; k < nx * ny; k++) m(k) = (k * 5) % 7 - 3; find_interface_cells(m, f, nX);
  bool ok = true; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) if (m(i * ny + j) != want(s, nx, ny, i, j)) ok = false;
  ensure(ok, "cells along the interface: inside -1, outside 1, lone cells -2, others 0" + t); for (int k = 0; k < nx * ny; k++) eq(f(k), f0(k), "level set is not changed" + t);
}
static std::vector<int> pat(int n, long b, int base) { std::vector<int> s; for (int k = 0; k < n; k++) { int d = b % base; b /= base; s.push_back(base == 2 ? 2 * d - 1 : d - 1); } return s; }
static void mask1(int n, const std::vector<int> &s, const std::string &t) {
  Vec f(n); for (int k = 0; k < n; k++) f(k) = s[k] ? s[k] * in_pos("a" + S(k)) : 0; iVec m(n), nX(1); nX << n; for (int k = 0; k < n; k++) m(k) = (k * 5) % 7 - 3; find_interface_cells(m, f, nX);
  bool ok = true; for (int i = 0; i < n; i++) { int w = 0; for (int d = -1; d < 2; d += 2) if (i + d >= 0 && i + d < n && s[i] * s[i + d] <= 0) w = s[i] <= 0 ? -1 : 1; if (m(i) != w) ok = false; }
  ensure(ok, "cells along the interface: inside -1, outside 1, others 0" + t);
}
UNIT(b_interface1, "find_interface_cells update_interface_mask sign") { for (int n = 2; n <= 5; n++) { long t = 1; for (int k = 0; k < n; k++) t *= 3; for (long b = 0; b < t; b++) mask1(n, pat(n, b, 3), " " + S(n) + " cells, signs " + S((int)b)); } for (long b = 0; b < 256; b++) mask1(8, pat(8, b, 2), " 8 cells, signs " + S((int)b)); }
#define I2(a, c) UNIT(b_interface2_##a##c, "find_interface_cells update_interface_mask sign") { for (long b = 0; b < (1 << (a * c)); b++) mask2(a, c, pat(a * c, b, 2), " " #a "x" #c " signs " + S((int)b)); }
I2(2, 2) I2(2, 3) I2(3, 2) I2(3, 3) I2(1, 4) I2(4, 1)
UNIT(b_interface2_zero, "find_interface_cells update_interface_mask sign") { for (long b = 0; b < 19683; b += 37) mask2(3, 3, pat(9, b, 3), " 3x3 signs with zeros " + S((int)b)); }
UNIT(b_interface2_wide, "find_interface_cells update_interface_mask sign") { for (int k = 0; k < 100; k++) { mask2(4, 5, pat(20, (k * 7919L + 13) * 104729 % (1 << 20), 2), " 4x5 signs " + S(k)); } }
UNIT(b_neighbour, "neighbor_index") {
  if (!neighbor_index) return; int di[4] = {-1, 1, 0, 0}, dj[4] = {0, 0, -1, 1};
  for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 3; ny++) { bool ok = true, none = true; for (int b = 0; b < (1 << (nx * ny)); b++) {
    iVec m(nx * ny); for (int k = 0; k < nx * ny; k++) m(k) = b >> k & 1 ? 4 : (k % 3) - 1; iVec m0 = m;
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { int r = neighbor_index(m, i, j, nx, ny, 4), c = 0; bool is = false; for (int d = 0; d < 4; d++) { int a = i + di[d], e = j + dj[d]; if (a < 0 || e < 0 || a >= nx || e >= ny || m0(a * ny + e) != 4) continue; c++; if (r == a * ny + e) is = true; } if (c && !is) ok = false; if (!c && r != -1) none = false; }
  } ensure(ok, "a face neighbour with the value asked for" + S(nx) + "x" + S(ny)); ensure(none, "-1 if no face neighbour has it " + S(nx) + "x" + S(ny)); }
}
UNIT(b_indicator, "material_indicator") {
  if (LSET != 1) return; int nc = 5; for (int mat = 0; mat < 2; mat++) { Vec u(nc * V); for (int i = 0; i < nc * V; i++) u(i) = in_any("u" + S(i)); Vec u0 = u; Vec f(nc); MatMap U(u.data(), nc, V, OuterStride(V)); iVec nX(1); nX << nc; aVec dX(1); dX << in_pos("dx"); material_indicator(f, U, mat, 2, dX, nX);
    for (int k = 0; k < nc; k++) { eq(f(k), (mat ? -1 : 1) * u0(k * V + V - LSET), "negative inside the material " + S(mat)); } for (int i = 0; i < nc * V; i++) eq(u(i), u0(i), "state is not changed"); }
}

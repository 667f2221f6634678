// Ghost cells: what each boundary condition puts outside the domain.
#include "gpr.h"
#include "etc/grid.h"
static const int T_ = 0, P_ = 1, SL_ = 2, ST_ = 3, M_ = 4, SY_ = 5;
static VecV refl(VecV q, int bc, int d) {
  if (bc == SL_ || bc == SY_) q(2 + d) = -q(2 + d);
  if (bc == SY_) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((i == d) != (j == d)) q(5 + 3 * i + j) = -q(5 + 3 * i + j);
  if (bc == ST_ || bc == M_) for (int i = 2; i < 5; i++) q(i) = -q(i);
  if (bc == M_) { double k = q(2) * q(2); q(2) = q(2) + 2 * q(0); q(1) = q(1) + (q(2) * q(2) - k) / (2 * q(0)); } // wall of unit velocity along x, internal energy kept
  return q;
}
// logical line g = -N .. n+N-1 from the n cells of `c`
static std::vector<VecV> line(const std::vector<VecV> &c, int b0, int b1, int d) {
  int n = c.size(); std::vector<VecV> r;
  for (int g = -N; g < n + N; g++) {
    if (g >= 0 && g < n) { r.push_back(c[g]); continue; }
    int bc = g < 0 ? b0 : b1, src = bc == T_ ? (g < 0 ? 0 : n - 1) : bc == P_ ? (g < 0 ? n + g : g - n) : (g < 0 ? -1 - g : 2 * n - 1 - g);
    r.push_back(bc == T_ || bc == P_ ? c[src] : refl(c[src], bc, d));
  }
  return r;
}
static VecV cell(int k) { VecV q; for (int i = 0; i < V; i++) q(i) = i == 0 ? in_pos("rho" + S(k)) : in_any("u" + S(k) + "_" + S(i)); return q; }
static void cmp(const VecV &a, const VecV &b, const std::string &n) { for (int v = 0; v < V; v++) eq(a(v), b(v), n + "[" + S(v) + "]"); }
static void one(int nx, int b0, int b1) {
  std::vector<VecV> c; Vec u(nx * V), ub((nx + 2 * N) * V); for (int i = 0; i < nx; i++) { c.push_back(cell(i)); for (int v = 0; v < V; v++) u(i * V + v) = c[i](v); }
  iVec nX(1), bt(2); nX << nx; bt << b0, b1; boundaries(u, ub, nX, bt); auto r = line(c, b0, b1, 0);
  std::string s = " (" + S(nx) + " cells, conditions " + S(b0) + "," + S(b1) + ")";
  for (int g = 0; g < nx + 2 * N; g++) cmp(ub.segment<V>(g * V), r[g], "cell " + S(g - N) + s);
  for (int i = 0; i < nx; i++) cmp(u.segment<V>(i * V), c[i], "input cell " + S(i) + " is not changed" + s);
}
static void two(int nx, int ny, int b0, int b1, int b2, int b3) {
  std::vector<VecV> c; Vec u(nx * ny * V), ub((nx + 2 * N) * (ny + 2 * N) * V); for (int i = 0; i < nx * ny; i++) { c.push_back(cell(i)); for (int v = 0; v < V; v++) u(i * V + v) = c[i](v); }
  iVec nX(2), bt(4); nX << nx, ny; bt << b0, b1, b2, b3; boundaries(u, ub, nX, bt);
  std::string s = " (" + S(nx) + "x" + S(ny) + " cells, conditions " + S(b0) + "," + S(b1) + "," + S(b2) + "," + S(b3) + ")";
  std::vector<std::vector<VecV>> cols; for (int j = 0; j < ny; j++) { std::vector<VecV> l; for (int i = 0; i < nx; i++) l.push_back(c[i * ny + j]); cols.push_back(line(l, b0, b1, 0)); }
  for (int i = 0; i < nx + 2 * N; i++) { std::vector<VecV> l; for (int j = 0; j < ny; j++) l.push_back(cols[j][i]); auto r = line(l, b2, b3, 1); for (int j = 0; j < ny + 2 * N; j++) cmp(ub.segment<V>((i * (ny + 2 * N) + j) * V), r[j], "cell " + S(i - N) + "," + S(j - N) + s); }
  for (int i = 0; i < nx * ny; i++) cmp(u.segment<V>(i * V), c[i], "input cell " + S(i) + " is not changed" + s);
}
#define FN1 "boundaries boundaries1"
#define FN2_ "boundaries boundaries2 boundaries1"
UNIT(b_line_a, FN1) { for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) one(N, a, b); }
UNIT(b_line_b, FN1) { for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) one(N + 3, a, b); }
UNIT(b_plane_x, FN2_) { for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) two(N, N + 1, a, b, SL_, SY_); }
UNIT(b_plane_y, FN2_) { for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) two(N + 1, N, M_, P_, a, b); }
UNIT(b_plane_same, FN2_) { for (int a = 0; a < 6; a++) two(N + 2, N + 2, a, a, a, a); }
// the physical reading: walls reflect the flow and keep density, pressure and level sets of the mirror cell
UNIT(b_wall_state, "boundaries boundaries1 pressure") {
  Par P = make_par_r(STIFFENED_GAS, false); int nx = N + 1; Vec u(nx * V), ub((nx + 2 * N) * V); for (int i = 0; i < nx; i++) u.segment<V>(i * V) = cell(i);
  for (int bc = 2; bc < 6; bc++) { iVec nX(1), bt(2); nX << nx; bt << bc, bc; boundaries(u, ub, nX, bt);
    for (int g = 0; g < N; g++) for (int side = 0; side < 2; side++) {
      VecV q = ub.segment<V>((side ? nx + N + g : N - 1 - g) * V), m = u.segment<V>((side ? nx - 1 - g : g) * V); std::string s = " bc" + S(bc) + " ghost" + S(g) + " side" + S(side);
      eq(q(0), m(0), "density" + s); eq(pressure(q, P), pressure(m, P), "pressure" + s); for (int i = V - LSET; i < V; i++) eq(q(i), m(i), "level set" + s);
      eq(q(2) / q(0) + m(2) / m(0), bc == M_ ? 2 : 0, "normal velocity at the wall" + s); } }
}

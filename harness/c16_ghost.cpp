// Ghost cells: the interface state beside the material, copies of it further out; cells of the material keep their values.
#include "gpr.h"
#include "multi/functions.h"
#include "multi/fill.h"
#include "solvers/iterator.h"
#include "system/multi/riemann.h"
static const int W = V - LSET;
static std::vector<Par> mats(int n) { std::vector<Par> P(n); for (int m = 0; m < n; m++) { P[m].EOS = STIFFENED_GAS; P[m].ρ0 = in_pos("rho0_" + S(m)); } return P; }
// level sets such that the cell belongs to material mi (of two)
static Vec cells(int nc, const std::vector<int> &mi, const std::string &s = "") { Vec u(nc * V); for (int k = 0; k < nc; k++) for (int i = 0; i < V; i++) u(k * V + i) = i < W ? in_any("u" + s + S(k) + "_" + S(i)) : mi[k] ? in_pos("l" + s + S(k)) : -in_pos("l" + s + S(k)); return u; }
static void same_cell(const Vec &u, int k, const Vec &u0, int k0, const std::string &name) { for (int i = 0; i < W; i++) eq(u(k * V + i), u0(k0 * V + i), name + "[" + S(k) + "," + S(i) + "]"); }
static void star_cell(const Vec &u, int k, const Vec &u0, int L, int R, Par &PL, Par &PR, double dt, Vec n, const std::string &name) { VecV q = left_star_state(u0.segment<V>(L * V), u0.segment<V>(R * V), PL, PR, dt, n); for (int i = 0; i < W; i++) eq(u(k * V + i), q(i), name + "[" + S(i) + "]"); }

// the grid lies between guards: what is read there is not initialised, and what is written there shows
struct Guarded { Vec buf; int n, g; Guarded(const Vec &u) : n(u.size()), g(3 * V) { buf = Vec(n + 2 * g); for (int i = 0; i < g; i++) buf(i) = buf(g + n + i) = not_a_number(); buf.segment(g, n) = u; } Eigen::Map<Vec> grid() { return Eigen::Map<Vec>(buf.data() + g, n); } bool whole() { for (int i = 0; i < g; i++) if (!std::isnan(buf(i)) || !std::isnan(buf(g + n + i))) return false; return true; } };
// one interface on a line: material `mat` on one side of the cell k, which is just outside
static void line(int mat, int side, int shift) {
  if (LSET != 1) return; int nx = 7, k = 3; auto P = mats(2); double dx = 0.25, dt = in_pos("dt"), th = in_range("theta", 0, 1); req_gt(th, 0); req_gt(1, th);
  std::vector<int> mi(nx); for (int i = 0; i < nx; i++) mi[i] = (side * (k - i) > 0) ? mat : 1 - mat; Vec u = cells(nx, mi), u0 = u; iVec m(nx); for (int i = 0; i < nx; i++) m(i) = i == k ? 1 : i == k - side ? -1 : 0; iVec m0 = m;
  Vec f(nx); for (int i = 0; i < nx; i++) f(i) = i == k ? th * dx : in_any("f" + S(i)); Mat D(nx, 1); for (int i = 0; i < nx; i++) D(i, 0) = side * (i % 3 + 1); aVec dX(1); dX << dx; iVec nX(1); nX << nx; Vec n(1); n << side;
  fill_boundary_cells(u, m, mat, f, D, dX, P, dt, nX); std::string s = " (material " + S(mat) + ", to the " + (side > 0 ? "left" : "right") + ")";
  // the interface lies th cells towards the material; the other material is probed one cell beyond it
  double probe = 1.5 - th; int R = side > 0 ? (th <= 0.5 ? k + 1 : k) : (th < 0.5 ? k - 1 : k); (void)probe; (void)shift;
  star_cell(u, k, u0, k - side, R, P[mat], P[1 - mat], dt, n, "cell beside the interface: interface state of the nearest cell of the material and the probed cell of the other" + s);
  for (int i = 0; i < nx; i++) if (i != k) same_cell(u, i, u0, i, "other cells keep their values" + s);
  for (int i = 0; i < nx; i++) { eq(u(i * V + W), u0(i * V + W), "level sets are kept" + s + "[" + S(i) + "]"); ensure(m(i) == m0(i), "mask is kept" + s); }
}
UNIT(b_line_left_0, "fill_boundary_cells fill_boundary_inner boundary_inds normal get_material_index") { line(0, 1, 0); }
UNIT(b_line_left_1, "fill_boundary_cells fill_boundary_inner boundary_inds normal get_material_index") { line(1, 1, 0); }
UNIT(b_line_right_0, "fill_boundary_cells fill_boundary_inner boundary_inds normal get_material_index") { line(0, -1, 0); }
UNIT(b_line_right_1, "fill_boundary_cells fill_boundary_inner boundary_inds normal get_material_index") { line(1, -1, 0); }

// one cell just outside in a plane, any surroundings
static const int PN[10][3] = {{1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {4, 3, 5}, {-5, 12, 13}, {12, -5, 13}, {-3, -4, 5}, {-15, -8, 17}};
// the cells holding the interface point and the probes one cell to either side; points off the grid are taken at its edge
static void source(int nn, double ph, const std::vector<int> &in, int nb, int nx, int ny, int c0, int c1, int &ci, int &ql, int &cr, Vec &n) {
  auto there = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny; }; int c = c0 * ny + c1;
  double nv[2] = {double(PN[nn][0]) / PN[nn][2], double(PN[nn][1]) / PN[nn][2]}; int I[2], L[2], R[2], cc[2] = {c0, c1}, nn_[2] = {nx, ny}; auto cl_ = [&](int x, int d) { return x < 0 ? 0 : x >= nn_[d] ? nn_[d] - 1 : x; };
  for (int d = 0; d < 2; d++) { double x = 0.5 + cc[d] - ph * nv[d]; I[d] = cl_((int)x, d); L[d] = cl_((int)(x - nv[d]), d); R[d] = cl_((int)(x + nv[d]), d); }
  int cl = L[0] * ny + L[1]; ci = I[0] * ny + I[1], cr = R[0] * ny + R[1]; n << nv[0], nv[1];
  if (in[ci]) ql = ci; else if (in[cl]) ql = cl;
  else { // the face neighbour against the larger component of the normal, then that against the smaller, then any
    int n0 = (PN[nn][0] > 0) - (PN[nn][0] < 0), n1 = (PN[nn][1] > 0) - (PN[nn][1] < 0); bool x = std::abs(PN[nn][0]) > std::abs(PN[nn][1]);
    int ax = there(c0 - n0, c1) ? c - ny * n0 : c, ay = there(c0, c1 - n1) ? c - n1 : c; int first = x ? ax : ay, other = x ? ay : ax; bool f1 = in[first]; bool alongx = f1 == x; n << (alongx ? n0 : 0), (alongx ? 0 : n1); ql = f1 ? first : in[other] ? other : nb;
  }
}
static void plane(int mat, int bits, int nn, int nx = 5, int ny = 5, int c0 = 2, int c1 = 2) {
  if (LSET != 1) return; int nc = nx * ny, c = c0 * ny + c1; auto P = mats(2); double dx = 0.25, dt = in_pos("dt"), g = 3, ph = in_range("phi", 0, 1); req_gt(ph, 0); req_gt(1, ph);
  int dirs[8][2] = {{-1, 0}, {1, 0}, {0, -1}, {0, 1}, {-1, -1}, {-1, 1}, {1, -1}, {1, 1}}; auto there = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny; };
  std::vector<int> in(nc, 0); for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) in[i * ny + j] = PN[nn][0] * (i - c0) + PN[nn][1] * (j - c1) < 0; in[c] = 0; for (int d = 0; d < 8; d++) if (there(c0 + dirs[d][0], c1 + dirs[d][1])) in[(c0 + dirs[d][0]) * ny + c1 + dirs[d][1]] = bits >> d & 1;
  iVec m(nc); m.setZero(); m(c) = 1; int nb = -1; for (int d = 0; d < 4; d++) if (there(c0 + dirs[d][0], c1 + dirs[d][1]) && (bits >> d & 1)) { nb = (c0 + dirs[d][0]) * ny + c1 + dirs[d][1]; m(nb) = -1; } if (nb < 0) return;
  std::vector<int> mi(nc); for (int k = 0; k < nc; k++) mi[k] = in[k] ? mat : 1 - mat; Vec u0 = cells(nc, mi); Guarded G(u0);
  Vec f(nc); for (int k = 0; k < nc; k++) f(k) = in_any("f" + S(k)); f(c) = ph * dx; Mat D(nc, 2); for (int k = 0; k < nc; k++) { D(k, 0) = in_any("D" + S(k)); D(k, 1) = in_any("E" + S(k)); } D(c, 0) = g * PN[nn][0]; D(c, 1) = g * PN[nn][1];
  aVec dX(2); dX << dx, dx; iVec nX(2); nX << nx, ny; Eigen::Map<Vec> gm = G.grid(); fill_boundary_cells(gm, m, mat, f, D, dX, P, dt, nX); Vec u = gm; std::string s = " (material " + S(mat) + ", cell " + S(c0) + "," + S(c1) + " of " + S(nx) + "x" + S(ny) + ", surroundings " + S(bits) + ", normal " + S(PN[nn][0]) + ":" + S(PN[nn][1]) + ")";
  ensure(G.whole(), "nothing outside of the grid is written" + s);
  int ci, cr, ql; Vec n(2); source(nn, ph, in, nb, nx, ny, c0, c1, ci, ql, cr, n);
  star_cell(u, c, u0, ql, cr, P[mat], P[in[cr] ? mat : 1 - mat], dt, n, "cell beside the interface: interface state of the cell of the material at the interface and the probed cell" + s);
  for (int k = 0; k < nc; k++) if (k != c) { if (k == ci && !in[ci]) same_cell(u, ci, u, c, "cell holding the interface point takes the same state" + s); else same_cell(u, k, u0, k, "other cells keep their values" + s); }
  for (int k = 0; k < nc; k++) eq(u(k * V + V - 1), u0(k * V + V - 1), "level sets are kept" + s + "[" + S(k) + "]");
}
#define PL(q) UNIT(b_plane_##q, "fill_boundary_cells fill_boundary_inner boundary_inds neighbor_index normal get_material_index") { for (int b = 1; b < 256; b += 1 + b % 3) plane(b % 2, b, q); for (int b = 1; b < 16; b++) plane(b / 3 % 2, b, q); }
PL(0) PL(1) PL(2) PL(3) PL(4) PL(5) PL(6) PL(7) PL(8) PL(9)

#define ED(q) UNIT(b_edge_##q, "fill_boundary_cells fill_boundary_inner boundary_inds neighbor_index normal get_material_index") { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != 1 || j != 1) for (int b = 1; b < 256; b += 1 + b % 11) plane(b % 2, b, q, 3, 3, i, j); }
ED(0) ED(1) ED(2) ED(3) ED(4) ED(5) ED(6) ED(7) ED(8) ED(9)

// several cells beside the interface: each is filled from the states the grid had before any was filled
static void layer(int mat, int first, int wide) { // a layer of the other material between two pieces of the material, on a line
  if (LSET != 1) return; int nx = first + wide + 3; auto P = mats(2); double dx = 0.25, dt = in_pos("dt"); std::vector<int> mi(nx); for (int i = 0; i < nx; i++) mi[i] = i >= first && i < first + wide ? 1 - mat : mat; Vec u = cells(nx, mi), u0 = u;
  int a = first, b = first + wide - 1; iVec m(nx); m.setZero(); m(a) = m(b) = 1; m(a - 1) = m(b + 1) = -1; Mat D(nx, 1); Vec f(nx); for (int i = 0; i < nx; i++) { D(i, 0) = i <= (a + b) / 2 ? 1 : -1; f(i) = in_any("f" + S(i)); } double t[2] = {in_range("theta_a", 0, 1), in_range("theta_b", 0, 1)}; for (int k = 0; k < 2; k++) { req_gt(t[k], 0); req_gt(1, t[k]); f(k ? b : a) = t[k] * dx; }
  aVec dX(1); dX << dx; iVec nX(1); nX << nx; fill_boundary_cells(u, m, mat, f, D, dX, P, dt, nX); std::string s = " (layer of " + S(wide) + " cells in material " + S(mat) + ")"; Vec n(1);
  n << 1; star_cell(u, a, u0, a - 1, t[0] <= 0.5 ? a + 1 : a, P[mat], P[1 - mat], dt, n, "left end: interface state of the states before filling" + s);
  n << -1; star_cell(u, b, u0, b + 1, t[1] < 0.5 ? b - 1 : b, P[mat], P[1 - mat], dt, n, "right end: interface state of the states before filling" + s);
  for (int i = 0; i < nx; i++) if (i != a && i != b) same_cell(u, i, u0, i, "other cells keep their values" + s);
}
UNIT(b_layer_0, "fill_boundary_cells fill_boundary_inner boundary_inds normal") { for (int w = 2; w < 5; w++) layer(0, 2, w); }
UNIT(b_layer_1, "fill_boundary_cells fill_boundary_inner boundary_inds normal") { for (int w = 2; w < 5; w++) layer(1, 1, w); }
static void slanted(int mat, int nn, int nx, int ny, int q) { // all the cells beside a straight interface across the grid
  if (LSET != 1) return; int nc = nx * ny; auto P = mats(2); double dx = 0.25, dt = in_pos("dt"); std::vector<int> in(nc), mi(nc); std::vector<double> ph(nc); int den = PN[nn][2] * 16;
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { int v = 16 * (PN[nn][0] * (2 * i - nx + 1) + PN[nn][1] * (2 * j - ny + 1)) / 2 + 2 * q * PN[nn][2] / 2 + 1; ph[i * ny + j] = double(v) / den; in[i * ny + j] = v <= 0; mi[i * ny + j] = v <= 0 ? mat : 1 - mat; }
  Vec u0 = cells(nc, mi); Guarded G(u0); iVec m(nc); m.setZero(); Vec f(nc); Mat D(nc, 2); std::vector<int> nb(nc, -1); int dd[4][2] = {{-1, 0}, {1, 0}, {0, -1}, {0, 1}};
  for (int k = 0; k < nc; k++) { f(k) = ph[k] * dx; D(k, 0) = 2 * PN[nn][0]; D(k, 1) = 2 * PN[nn][1]; for (auto &d : dd) { int i = k / ny + d[0], j = k % ny + d[1]; if (i < 0 || j < 0 || i >= nx || j >= ny || in[i * ny + j] == in[k]) continue; m(k) = in[k] ? -1 : 1; if (!in[k]) nb[k] = i * ny + j; } }
  aVec dX(2); dX << dx, dx; iVec nX(2); nX << nx, ny; Eigen::Map<Vec> gm = G.grid(); fill_boundary_cells(gm, m, mat, f, D, dX, P, dt, nX); Vec u = gm; std::string s = " (material " + S(mat) + ", normal " + S(PN[nn][0]) + ":" + S(PN[nn][1]) + ", offset " + S(q) + ", " + S(nx) + "x" + S(ny) + ")";
  ensure(G.whole(), "nothing outside of the grid is written" + s); std::vector<int> other(nc, 0);
  for (int k = 0; k < nc; k++) if (m(k) == 1) { int ci, ql, cr; Vec n(2); source(nn, ph[k], in, nb[k], nx, ny, k / ny, k % ny, ci, ql, cr, n); if (!in[ci] && ci != k) other[ci] = 1; }
  for (int k = 0; k < nc; k++) { if (m(k) != 1) { if (!other[k]) same_cell(u, k, u0, k, "other cells keep their values" + s); continue; } if (other[k]) continue; // filled from more than one side
    int ci, ql, cr; Vec n(2); source(nn, ph[k], in, nb[k], nx, ny, k / ny, k % ny, ci, ql, cr, n); star_cell(u, k, u0, ql, cr, P[mat], P[in[cr] ? mat : 1 - mat], dt, n, "cell beside the interface: interface state of the states before filling" + s + S(k)); }
}
#define SL(z) UNIT(b_slanted_##z, "fill_boundary_cells fill_boundary_inner boundary_inds neighbor_index normal get_material_index") { for (int q = -8; q < 9; q++) slanted(q & 1, z, 4, 4 + (q & 2) / 2, q); }
SL(0) SL(3) SL(4) SL(5) SL(6) SL(7) SL(8) SL(9)

// copies further out on a line
static void spread1(int lo, int hi, int nx) { // material from lo to hi
  std::vector<int> in(nx); iVec m(nx); for (int i = 0; i < nx; i++) in[i] = i >= lo && i <= hi; for (int i = 0; i < nx; i++) { m(i) = 0; for (int d = -1; d < 2; d += 2) if (i + d >= 0 && i + d < nx && in[i] != in[i + d]) m(i) = in[i] ? -1 : 1; }
  Vec u(nx * V), u0; for (int i = 0; i < nx * V; i++) u(i) = in_any("u" + S(i)); u0 = u; Mat D(nx, 1); for (int i = 0; i < nx; i++) D(i, 0) = (2 * i < lo + hi ? -1 : 1) * in_pos("g" + S(i)); aVec dX(1); dX << in_pos("dx"); iVec nX(1); nX << nx;
  fill_neighbor_cells(u, m, D, dX, nX); std::string s = " (material in cells " + S(lo) + " to " + S(hi) + " of " + S(nx) + ")";
  for (int i = 0; i < nx; i++) { int src = i < lo ? lo - 1 : i > hi ? hi + 1 : i; int dist = i < lo ? lo - 1 - i : i > hi ? i - hi - 1 : 0;
    if (dist <= N) same_cell(u, i, u0, src, dist ? "cells outside hold the state at their border" + s : "cells of the material and at its border keep their values" + s);
    else { bool a = true; (void)a; if (dist >= 10 * N) same_cell(u, i, u0, i, "cells far outside are left" + s); else same_cell(u, i, u0, src, "cells outside hold the state at their border" + s); }
    for (int v = W; v < V; v++) eq(u(i * V + v), u0(i * V + v), "level sets are kept" + s); }
}
UNIT(b_spread1_left, "fill_neighbor_cells fill_neighbor_inner normal") { spread1(0, 2, 8); spread1(0, 0, 4); spread1(0, 1, 25); }
UNIT(b_spread1_right, "fill_neighbor_cells fill_neighbor_inner normal") { spread1(5, 7, 8); spread1(3, 3, 4); spread1(24, 25, 26); }
UNIT(b_spread1_middle, "fill_neighbor_cells fill_neighbor_inner normal") { spread1(3, 4, 8); spread1(3, 3, 7); spread1(2, 5, 9); }
// in a plane: shapes and normals given by a rule; the first entry of each state tells the cells apart
static void spread2(int nx, int ny, const std::function<bool(int, int)> &in, const std::function<std::pair<int, int>(int, int)> &nrm, const std::string &t, bool num = false) {
  int nc = nx * ny; Vec f(nc); iVec m(nc), nX(2); nX << nx, ny; std::vector<int> is(nc); for (int k = 0; k < nc; k++) { is[k] = in(k / ny, k % ny); f(k) = is[k] ? -1 : 1; } find_interface_cells(m, f, nX); iVec m0 = m;
  Vec u(nc * V), u0; for (int i = 0; i < nc * V; i++) u(i) = i % V == 0 ? double(i / V + 1) : in_any("u" + S(i)); u0 = u; Mat D(nc, 2); for (int k = 0; k < nc; k++) { auto p = nrm(k / ny, k % ny); double g = num ? double(k % 4 + 1) : in_pos("g" + S(k)); D(k, 0) = g * p.first; D(k, 1) = g * p.second; } aVec dX(2); double h = num ? double(0.5) : in_pos("dx"); dX << h, h; Guarded G(u0); Eigen::Map<Vec> gm = G.grid(); fill_neighbor_cells(gm, m, D, dX, nX); u = gm; ensure(G.whole(), "nothing outside of the grid is written" + t);
// steps from the border
  std::vector<int> d(nc, -1); for (int k = 0; k < nc; k++) if (m0(k) == 1) d[k] = 0; for (int r = 0; r < nc; r++) for (int k = 0; k < nc; k++) if (d[k] < 0 && (m0(k) == 0 || m0(k) == -2)) { int i = k / ny, j = k % ny; if ((i > 0 && d[k - ny] == r && m0(k - ny) != -2) || (i < nx - 1 && d[k + ny] == r && m0(k + ny) != -2) || (j > 0 && d[k - 1] == r && m0(k - 1) != -2) || (j < ny - 1 && d[k + 1] == r && m0(k + 1) != -2)) d[k] = r + 1; }
  // the state of a filled cell is that of a cell towards the interface if that lies outside, else of a face neighbour one step nearer
  for (int k = 0; k < nc; k++) {
    if (d[k] <= 0) { same_cell(u, k, u0, k, "cells of the material and at its border keep their values" + t); continue; }
    // which border cells agree with it in the first entry?
    int src = -1; for (int b = 0; b < nc; b++) if (d[b] == 0 && u(k * V) == u0(b * V)) src = b; ensure(src >= 0, "cells outside hold the state of a cell at the border" + t + "[" + S(k) + "]"); if (src >= 0) same_cell(u, k, u0, src, "cells outside hold the whole state of that cell" + t);
    if (m0(k) != -2) ensure(m(k) == d[k] + 1, "mask counts the steps from the border" + t); else ensure(m(k) == -2, "lone cells stay marked" + t);
    if (is[k] || m0(k) == -2) continue; auto p = nrm(k / ny, k % ny); double r = std::sqrt(double(p.first * p.first + p.second * p.second)); int a = (int)(k / ny + 0.5 - p.first / r), b = (int)(k % ny + 0.5 - p.second / r); if (a < 0 || b < 0 || a >= nx || b >= ny) continue; int q = a * ny + b; if (d[q] >= 0 && d[q] < d[k] && m0(q) != -2) same_cell(u, k, u, q, "cells outside hold the state of the cell towards the interface" + t);
  }
  for (int k = 0; k < nc; k++) { if (d[k] <= 0) ensure(m(k) == m0(k), "mask of other cells is kept" + t); for (int v = W; v < V; v++) eq(u(k * V + v), u0(k * V + v), "level sets are kept" + t); }
}
UNIT(b_spread2_half, "fill_neighbor_cells fill_neighbor_inner neighbor_index normal") { spread2(5, 4, [](int i, int) { return i < 2; }, [](int, int) { return std::make_pair(1, 0); }, " (half plane, first axis)"); spread2(4, 5, [](int, int j) { return j > 2; }, [](int, int) { return std::make_pair(0, -1); }, " (half plane, second axis)"); }
UNIT(b_spread2_slant, "fill_neighbor_cells fill_neighbor_inner neighbor_index normal") { spread2(6, 6, [](int i, int j) { return 3 * i + 4 * j < 9; }, [](int, int) { return std::make_pair(3, 4); }, " (slanted half plane)"); spread2(6, 6, [](int i, int j) { return 12 * (5 - i) - 5 * j < 20 && i > 1; }, [](int, int) { return std::make_pair(-12, -5); }, " (wedge)"); }
UNIT(b_spread2_disc, "fill_neighbor_cells fill_neighbor_inner neighbor_index normal") { spread2(7, 7, [](int i, int j) { return (i - 3) * (i - 3) + (j - 3) * (j - 3) <= 1; }, [](int i, int j) { return i == 3 && j == 3 ? std::make_pair(1, 0) : std::make_pair(i - 3, j - 3); }, " (disc)", true); }
UNIT(b_spread2_lone, "fill_neighbor_cells fill_neighbor_inner neighbor_index normal") { spread2(6, 5, [](int i, int j) { return i < 2 || (i == 4 && j == 2); }, [](int, int) { return std::make_pair(1, 0); }, " (half plane and a lone cell)"); }

UNIT(b_spread2_edge, "fill_neighbor_cells fill_neighbor_inner neighbor_index normal") { // normals that point into the grid from its edge
  for (int q = 0; q < 10; q++) { spread2(4, 4, [](int i, int j) { return i == 3 && j < 2; }, [q](int, int) { return std::make_pair(PN[q][0], PN[q][1]); }, " (body at the edge, normal " + S(q) + ")", true); spread2(4, 4, [](int i, int j) { return i < 2 && j == 0; }, [q](int, int) { return std::make_pair(PN[q][0], PN[q][1]); }, " (body at the other edge, normal " + S(q) + ")", true); }
}
// everything together on a line
static void together(int nmat, std::vector<int> mi, int vac, std::vector<real_double> fix = {}) {
  if (nmat != LSET + 1) return; int nx = mi.size(); auto P = mats(nmat); if (vac >= 0) P[vac].EOS = VACUUM; double dx = 0.25, dt = in_pos("dt"); aVec dX(1); dX << dx; iVec nX(1); nX << nx;
  // level sets with crossings theta cells beyond the last cell before each interface
  Vec u(nx * V); std::vector<double> th(LSET); std::vector<int> at(LSET); for (int l = 0; l < LSET; l++) { th[l] = fix.size() ? double(fix[l]) : in_range("theta" + S(l), 0, 1); req_gt(th[l], 0); req_gt(1, th[l]); at[l] = -1; for (int i = 0; i < nx; i++) if (mi[i] <= l) at[l] = i; double sl = 2 + l; for (int i = 0; i < nx; i++) u(i * V + W + l) = sl * dx * (i - at[l] - th[l]); }
  for (int i = 0; i < nx; i++) for (int v = 0; v < W; v++) u(i * V + v) = in_any("u" + S(i) + "_" + S(v)); Vec u0 = u; std::vector<Vec> g(nmat); std::vector<bVec> mk(nmat); for (int m = 0; m < nmat; m++) { g[m] = Vec(nx * V); for (int i = 0; i < nx * V; i++) g[m](i) = in_any("g" + S(m) + "_" + S(i)); mk[m] = bVec(nx); for (int i = 0; i < nx; i++) mk[m](i) = (i + m) % 2; } auto g0 = g;
  fill_ghost_cells(g, mk, u, nX, dX, dt, P); std::string s = " (cells"; for (int x : mi) s += " " + S(x); s += ", vacuum " + S(vac) + ")";
  for (int i = 0; i < nx; i++) { same_cell(u, i, u0, i, "the grid itself keeps its values" + s); for (int l = 0; l < LSET; l++) eq(u(i * V + W + l), dx * (i - at[l] - th[l]), "level sets become signed distances" + s + "[" + S(i) + "]"); }
  for (int m = 0; m < nmat; m++) {
    if (m == vac) { for (int i = 0; i < nx; i++) ensure(!mk[m](i), "vacuum has no active cells" + s); for (int i = 0; i < nx * V; i++) eq(g[m](i), g0[m](i), "the grid of the vacuum is left" + s); continue; }
    int lo = nx, hi = -1; for (int i = 0; i < nx; i++) if (mi[i] == m) { lo = std::min(lo, i); hi = std::max(hi, i); }
    for (int i = 0; i < nx; i++) { for (int l = 0; l < LSET; l++) eq(g[m](i * V + W + l), u(i * V + W + l), "every grid holds the level sets" + s); bool in = i >= lo && i <= hi; ensure((bool)mk[m](i) == (i >= lo - 1 && i <= hi + 1), "active cells: those of the material and the ones beside it" + s + "[" + S(m) + "," + S(i) + "]"); if (in) same_cell(g[m], i, u0, i, "cells of the material keep their values" + s); }
    for (int side = -1; side < 2; side += 2) { int b = side < 0 ? lo - 1 : hi + 1, e = side < 0 ? lo : hi; if (b < 0 || b >= nx) continue; int l = side < 0 ? m - 1 : m; double d = side < 0 ? th[l] : 1 - th[l]; // distance of the cell beside from the interface, in cells
      Vec n(1); n << side; int R = d == 0.5 ? (side > 0 ? b + 1 : b) : d < 0.5 ? b + side : b; Vec q0 = u; Par &PR = P[mi[R]];
      star_cell(g[m], b, q0, e, R, P[m], PR, dt, n, "cell beside the material: interface state" + s + "[" + S(m) + "]");
      for (int i = b + side; i >= 0 && i < nx && (side > 0 ? i - b : b - i) < 5; i += side) same_cell(g[m], i, g[m], b, "cells further out hold the same state" + s); }
  }
}
#define TG "fill_ghost_cells fill_boundary_cells fill_neighbor_cells find_interface_cells finite_difference material_indicator renormalize_levelsets distance"
UNIT(b_together2_a, TG) { together(2, {0, 0, 0, 1, 1, 1}, -1); }
UNIT(b_together2_b, TG) { together(2, {0, 0, 1, 1, 1}, 1); }
UNIT(b_together2_c, TG) { together(2, {0, 0, 0, 1, 1}, 0); }
#define T3(q, a, b) UNIT(b_together3_##q, TG) { for (int v = -1; v < 3; v++) together(3, {0, 0, 0, 1, 1, 1, 1, 2, 2, 2}, v, {a, b}); }
T3(a, 0.25, 0.75) T3(b, 0.75, 0.25) T3(c, 0.125, 0.375) T3(d, 0.875, 0.625)

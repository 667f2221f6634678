// The reconstruction over a grid: averages kept, polynomials reproduced, uniform states kept, every value set, and the
// values those of the stencils around the cell.
#include "weno_ref.h"
#include "solvers/weno/weno.h"
static const int SV = 2; // components given symbolic data; the others get distinct numbers
static double num(int i, int v) { return double((i * 37 + v * 11) % 23) / 3 + v; }
struct R { int nd, nx, ny; Vec ub, wh; }; // nx, ny: cells without ghosts
static int ubi(const R &r, int i, int j, int v) { return ((i + N) * (r.nd == 1 ? 1 : r.ny + 2 * N) + (r.nd == 1 ? 0 : j + N)) * V + v; } // cell (i,j), from -N
static int whi(const R &r, int i, int j, int s, int v) { int per = r.nd == 1 ? N : N * N; return (((i + 1) * (r.nd == 1 ? 1 : r.ny + 2) + (r.nd == 1 ? 0 : j + 1)) * per + s) * V + v; } // from -1
static R make(int nd, int nx, int ny) { R r; r.nd = nd; r.nx = nx; r.ny = ny; int cells = (nx + 2 * N) * (nd == 1 ? 1 : ny + 2 * N), out = (nx + 2) * (nd == 1 ? 1 : ny + 2) * (nd == 1 ? N : N * N); r.ub = Vec(cells * V); r.wh = Vec(out * V); return r; }
static void launch(R &r) { iVec nX(r.nd); nX(0) = r.nx; if (r.nd == 2) nX(1) = r.ny; Par P = make_par_r(STIFFENED_GAS, false); Vec ub = r.ub; weno_launcher(r.wh, ub, nX, P); for (int i = 0; i < ub.size(); i++) if (i % V < SV) eq(ub(i), r.ub(i), "input is not changed"); }
static void general(R &r) { for (int i = 0; i < r.ub.size(); i++) r.ub(i) = i % V < SV ? in_any("u" + S(i)) : num(i / V, i % V); }
static double wq(const R &r, int s) { return r.nd == 1 ? WGHTS(s) : WGHTS(s / N) * WGHTS(s % N); }
static void averages(int nd, int nx, int ny) {
  R r = make(nd, nx, ny); general(r); launch(r);
  for (int i = -1; i <= nx; i++) for (int j = nd == 1 ? 0 : -1; j <= (nd == 1 ? 0 : ny); j++) for (int v = 0; v < V; v++) { double a = 0; for (int s = 0; s < (nd == 1 ? N : N * N); s++) a = a + wq(r, s) * r.wh(whi(r, i, j, s, v)); eq(a, r.ub(ubi(r, i, j, v)), "average of cell " + S(i) + "," + S(j) + " kept[" + S(v) + "] " + S(nx) + "x" + S(ny)); }
}
// averages of sum c_kl x^k y^l; the grid cell (i,j) is [i,i+1]x[j,j+1]
static double mavg(int k, int i) { double a = 1, b = 1; for (int j = 0; j <= k; j++) { a = a * i; b = b * (i + 1); } return (b - a) / (k + 1); }
static void polynomial(int nd, int nx, int ny) {
  R r = make(nd, nx, ny); int L = nd == 1 ? 1 : N; double c[N][N]; for (int k = 0; k < N; k++) for (int l = 0; l < L; l++) c[k][l] = in_any("c" + S(k) + "_" + S(l));
  for (int i = -N; i < nx + N; i++) for (int j = nd == 1 ? 0 : -N; j < (nd == 1 ? 1 : ny + N); j++) for (int v = 0; v < V; v++) { double s = 0; for (int k = 0; k < N; k++) for (int l = 0; l < L; l++) s = s + (v + 1) * c[k][l] * mavg(k, i) * (nd == 1 ? double(1) : mavg(l, j)); r.ub(ubi(r, i, j, v)) = s; }
  launch(r);
  for (int i = -1; i <= nx; i++) for (int j = nd == 1 ? 0 : -1; j <= (nd == 1 ? 0 : ny); j++) for (int s = 0; s < (nd == 1 ? N : N * N); s++) {
    double x = i + NODES(nd == 1 ? s : s / N), y = nd == 1 ? double(0) : j + NODES(s % N), z = 0, px = 1; for (int k = 0; k < N; k++) { double py = 1; for (int l = 0; l < L; l++) { z = z + c[k][l] * px * py; py = py * y; } px = px * x; }
    for (int v = 0; v < V; v++) eq(r.wh(whi(r, i, j, s, v)), (v + 1) * z, "polynomial reproduced in cell " + S(i) + "," + S(j) + " node" + S(s) + "[" + S(v) + "]");
  }
}
#define F1 "weno_launcher weno1 coeffs weight"
#define F2 "weno_launcher weno2 weno1 coeffs weight"
UNIT(b_average1, F1) { for (int nx = 1; nx <= 5; nx++) averages(1, nx, 0); }
UNIT(b_average2_a, F2) { averages(2, 1, 1); }
UNIT(b_average2_b, F2) { averages(2, 2, 3); }
UNIT(b_average2_c, F2) { averages(2, 3, 2); }
UNIT(b_polynomial1, F1) { for (int nx = 1; nx <= 5; nx++) polynomial(1, nx, 0); }
UNIT(b_polynomial2, F2) { polynomial(2, 1, 1); polynomial(2, 2, 3); polynomial(2, 3, 2); polynomial(2, 4, 4); }

// The reconstruction over a grid (laws): averages kept, polynomials reproduced, uniform states kept, every value set, and the
// values those of the stencils around the cell.
#include "weno_ref.h"
#include "solvers/weno/weno.h"
static const int SV = 2; // components given symbolic data; the others get distinct numbers
static double num(int i, int v) { return double((i * 37 + v * 11) % 23) / 3 + v; }
struct R { int nd, nx, ny; Vec ub, wh; }; // nx, ny: cells without ghosts
static int ubi(const R &r, int i, int j, int v) { return ((i + N) * (r.nd == 1 ? 1 : r.ny + 2 * N) + (r.nd == 1 ? 0 : j + N)) * V + v; } // cell (i,j), from -N
static int whi(const R &r, int i, int j, int s, int v) { int per = r.nd == 1 ? N : N * N; return (((i + 1) * (r.nd == 1 ? 1 : r.ny + 2) + (r.nd == 1 ? 0 : j + 1)) * per + s) * V + v; } // from -1
static R make(int nd, int nx, int ny) { R r; r.nd = nd; r.nx = nx; r.ny = ny; int cells = (nx + 2 * N) * (nd == 1 ? 1 : ny + 2 * N), out = (nx + 2) * (nd == 1 ? 1 : ny + 2) * (nd == 1 ? N : N * N); r.ub = Vec(cells * V); r.wh = Vec(out * V); return r; }
static void launch(R &r) { iVec nX(r.nd); nX(0) = r.nx; if (r.nd == 2) nX(1) = r.ny; Par P = make_par_r(STIFFENED_GAS, false); Vec ub = r.ub; weno_launcher(r.wh, ub, nX, P); for (int i = 0; i < ub.size(); i++) if (i % V < SV) eq(ub(i), r.ub(i), "input is not changed"); }
static void general(R &r) { for (int i = 0; i < r.ub.size(); i++) r.ub(i) = i % V < SV ? in_any("u" + S(i)) : num(i / V, i % V); }
static void law1(int nx) {
  R r = make(1, nx, 0); general(r); launch(r);
  for (int i = -1; i <= nx; i++) for (int v = 0; v < SV; v++) { std::vector<double> d; for (int k = 0; k < W; k++) d.push_back(r.ub(ubi(r, i - (N - 1) + k, 0, v))); VecN w = weno_ref(d); for (int a = 0; a < N; a++) eq(r.wh(whi(r, i, 0, a, v)), w(a), "reconstruction of cell " + S(i) + " node" + S(a) + "[" + S(v) + "]"); }
}
// away from the edges: reconstruct along x in each row, then along y
static void law2(int nx, int ny, int i, int j) {
  R r = make(2, nx, ny); general(r); launch(r);
  for (int v = 0; v < SV; v++) {
    std::vector<VecN> rows; for (int l = 0; l < W; l++) { std::vector<double> d; for (int k = 0; k < W; k++) d.push_back(r.ub(ubi(r, i - (N - 1) + k, j - (N - 1) + l, v))); rows.push_back(weno_ref(d)); }
    for (int a = 0; a < N; a++) { std::vector<double> d; for (int l = 0; l < W; l++) d.push_back(rows[l](a)); VecN w = weno_ref(d); for (int b = 0; b < N; b++) eq(r.wh(whi(r, i, j, a * N + b, v)), w(b), "reconstruction of cell " + S(i) + "," + S(j) + " node" + S(a) + "," + S(b) + "[" + S(v) + "]"); }
  }
}
#define F1 "weno_launcher weno1 coeffs weight"
#define F2 "weno_launcher weno2 weno1 coeffs weight"
UNIT(b_law1, F1) { for (int nx = 1; nx <= 4; nx++) law1(nx); }
UNIT(b_law2, F2) { int m = N - 1; law2(2 * m + 1, 2 * m + 1, m, m); law2(2 * m + 2, 2 * m + 3, m + 1, m); law2(2 * m + 3, 2 * m + 2, m, m + 1); }

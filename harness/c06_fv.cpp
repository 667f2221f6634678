// The finite-volume update: every cell changes by exactly its own source, jump and interface terms; masked-out cells and
// interfaces contribute nothing; what leaves one cell enters its neighbour.
#include "gpr.h"
#include "solvers/fv/fv.h"
#include "solvers/fv/fluxes.h"
typedef VecV (*DF)(VecVr, VecVr, int, Par &);
static DF flux_fn(int f) { return f == RUSANOV ? D_RUS : f == ROE ? D_ROE : D_OSH; }
// on the real callees the reconstruction stays near a physical state; to the verifier it is arbitrary
static double field(const std::string &n, int i) { return is_symbolic() ? in_any(n) : i == 0 ? in_range(n, 1, 1.1) : i == 1 ? in_range(n, 9, 9.5) : in_range(n, -.05, .05) + ((i == 5 || i == 9 || i == 13) ? 1 : 0); }
static bVec mask_of(unsigned long m, int n) { bVec b(n); for (int i = 0; i < n; i++) b(i) = (m >> i) & 1; return b; }
struct G { int ndim, n[2], nt, f; bool src, time; double dt, dX[2]; bVec mask; Vec u, rec; Par P; };
static int pad(const G &g, int i, int j) { return g.ndim == 1 ? i + 1 : (i + 1) * (g.n[1] + 2) + j + 1; } // cell (i,j), ghosts at -1 and n
static VecV node(G &g, int i, int j, int t, int s) { int per = g.ndim == 1 ? N : N * N; VecV q; for (int v = 0; v < V; v++) q(v) = g.rec(((pad(g, i, j) * g.nt + t) * per + s) * V + v); return q; }
static double wt(const G &g, int t) { return g.time ? g.dt * WGHTS(t) : g.dt; }
// node values on a face: along axis d at its lower (0) or upper (1) end, at transverse node s
static VecV face(G &g, int i, int j, int t, int d, int e, int s) { VecV q = VecV::Zero(); for (int a = 0; a < N; a++) q += ENDVALS(e, a) * node(g, i, j, t, g.ndim == 1 ? a : d == 0 ? a * N + s : s * N + a); return q; }
static VecV deriv_at(G &g, int i, int j, int t, int d, int s) { VecV q = VecV::Zero(); for (int a = 0; a < N; a++) q += DERVALS(g.ndim == 1 || d == 1 ? s % N : s / N, a) * node(g, i, j, t, g.ndim == 1 ? a : d == 0 ? a * N + s % N : (s / N) * N + a); return q; }
static VecV centre(G &g, int i, int j) {
  VecV r = VecV::Zero(); int per = g.ndim == 1 ? N : N * N;
  for (int t = 0; t < g.nt; t++) for (int s = 0; s < per; s++) {
    double w = wt(g, t) * (g.ndim == 1 ? WGHTS(s) : WGHTS(s / N) * WGHTS(s % N)); VecV q = node(g, i, j, t, s), x, S = VecV::Zero();
    if (g.src) source(S, q, g.P);
    for (int d = 0; d < g.ndim; d++) { VecV dq = deriv_at(g, i, j, t, d, s); Bdot(x, q, dq, d, g.P); S -= x / g.dX[d]; }
    r += w * S;
  }
  return r;
}
// what the interface above cell (i,j) along axis d does to the cell below it (side 0) and above it (side 1)
static VecV iface(G &g, int i, int j, int d, int side) {
  VecV r = VecV::Zero(); int i2 = i + (d == 0), j2 = j + (d == 1); if (!g.mask(pad(g, i, j)) || !g.mask(pad(g, i2, j2))) return r;
  for (int t = 0; t < g.nt; t++) for (int s = 0; s < (g.ndim == 1 ? 1 : N); s++) {
    double w = wt(g, t) / (2 * g.dX[d]) * (g.ndim == 1 ? double(1) : double(WGHTS(s))); VecV L = face(g, i, j, t, d, 1, s), R = face(g, i2, j2, t, d, 0, s);
    VecV f = flux_fn(g.f)(L, R, d, g.P), b = Bint(L, R, d, g.P); r -= w * (side == 0 ? VecV(b + f) : VecV(b - f));
  }
  return r;
}
static G make(int ndim, int nx, int ny, int f, bool src, bool time, bool uniform = false) {
  G g; g.ndim = ndim; g.n[0] = nx; g.n[1] = ny; g.f = f; g.src = src; g.time = time; g.nt = time ? N : 1; g.dt = in_pos("dt"); g.dX[0] = in_pos("dx"); g.dX[1] = in_pos("dy"); g.P = make_par_r(STIFFENED_GAS, false);
  int cells = ndim == 1 ? nx : nx * ny, pc = ndim == 1 ? nx + 2 : (nx + 2) * (ny + 2), per = ndim == 1 ? N : N * N; g.u = Vec(cells * V); g.rec = Vec(pc * g.nt * per * V); g.mask = mask_of(~0ul, pc);
  for (int i = 0; i < g.u.size(); i++) g.u(i) = field("u" + S(i), i % V);
  VecV q; if (uniform) for (int v = 0; v < V; v++) q(v) = field("q" + S(v), v);
  for (int i = 0; i < g.rec.size(); i++) g.rec(i) = uniform ? q(i % V) : field("r" + S(i), i % V); return g;
}
static Vec launch(G &g, const Vec &u0) { Vec u = u0; iVec nX(g.ndim); Vec dX(g.ndim); for (int d = 0; d < g.ndim; d++) { nX(d) = g.n[d]; dX(d) = g.dX[d]; } Par P = g.P; bVec m = g.mask; fv_launcher(u, g.rec, nX, g.dt, dX, g.src, g.time, g.f, P, m); return u; }
static void check(G &g, const std::string &tag) {
  Vec u = launch(g, g.u); int ny = g.ndim == 1 ? 1 : g.n[1];
  for (int i = 0; i < g.n[0]; i++) for (int j = 0; j < ny; j++) {
    bool on = g.mask(pad(g, i, j)); VecV r = VecV::Zero(); if (on) { r += centre(g, i, j); for (int d = 0; d < g.ndim; d++) { r += iface(g, i, j, d, 0); r += iface(g, i - (d == 0), j - (d == 1), d, 1); } }
    for (int v = 0; v < V; v++) eq(u((i * ny + j) * V + v) - g.u((i * ny + j) * V + v), r(v), (on ? "update of cell " : "masked cell is kept ") + tag + S(i) + "," + S(j) + "[" + S(v) + "]");
  }
}
static void conservation(int ndim) {
  G g = make(ndim, 2, 2, RUSANOV, false, true); Vec u = launch(g, g.u); int ny = ndim == 1 ? 1 : g.n[1];
  for (int v = 0; v < 5; v++) {
    double a = 0, b = 0; for (int c = 0; c < g.n[0] * ny; c++) a = a + u(c * V + v) - g.u(c * V + v);
    for (int d = 0; d < ndim; d++) for (int k = 0; k < (ndim == 1 ? 1 : g.n[1 - d]); k++) { b = b + iface(g, d == 0 ? -1 : k, d == 1 ? -1 : k, d, 1)(v) + iface(g, d == 0 ? g.n[0] - 1 : k, d == 1 ? g.n[1] - 1 : k, d, 0)(v); }
    eq(a, b, "total changes only through the outer faces[" + S(v) + "]");
  }
}
#define FN1 "fv_launcher centers1 centers1_inner interfs1 interfs1_inner ind"
#define FN2 "fv_launcher centers2 centers2_inner interfs2 interfs2_inner derivs2d endpts2d ind"
#define L1(name, f, src, time) UNIT(name, FN1) { for (int nx = 1; nx <= 3; nx++) { G g = make(1, nx, 1, f, src, time); for (unsigned long m = 0; m < (1ul << (nx + 2)); m++) { g.mask = mask_of(m, nx + 2); check(g, "nx" + S(nx) + " mask" + S((int)m) + " "); } } }
L1(b_law1_rus_time, RUSANOV, true, true)
L1(b_law1_roe_time, ROE, true, true)
L1(b_law1_osh_time, OSHER, true, true)
L1(b_law1_rus, RUSANOV, true, false)
L1(b_law1_roe, ROE, false, false)
L1(b_law1_osh_nosource, OSHER, false, true)
static void law2(int f, bool src, bool time, int nx, int ny, int nm) {
  G g = make(2, nx, ny, f, src, time); int n = (nx + 2) * (ny + 2); unsigned long full = (1ul << n) - 1, st = 88172645463325252ul;
  for (int k = 0; k < nm; k++) { unsigned long m = full; if (k > 0 && k <= n) m = full & ~(1ul << (k - 1)); else if (k > n) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; m = (st >> 20) & full; } g.mask = mask_of(m, n); check(g, S(nx) + "x" + S(ny) + " mask" + std::to_string(m) + " "); }
}
UNIT(b_law2_rus_time, FN2) { law2(RUSANOV, true, true, 1, 1, 24); law2(RUSANOV, true, true, 2, 1, 20); }
UNIT(b_law2_roe_time, FN2) { law2(ROE, true, true, 1, 2, 20); }
UNIT(b_law2_osh_time, FN2) { law2(OSHER, true, true, 2, 2, 8); }
UNIT(b_law2_rus, FN2) { law2(RUSANOV, true, false, 2, 3, 40); }
UNIT(b_law2_roe, FN2) { law2(ROE, false, false, 3, 2, 40); }
UNIT(b_law2_osh, FN2) { law2(OSHER, true, false, 2, 2, 40); }
UNIT(b_conservation1, FN1) { conservation(1); }
UNIT(b_conservation2, FN2) { conservation(2); }

// A uniform flow without sources stays as it is, for every consistent numerical flux.
#include "gpr.h"
#include "solvers/fv/fv.h"
#include "solvers/fv/fluxes.h"
typedef VecV (*DF)(VecVr, VecVr, int, Par &);
static DF flux_fn(int f) { return f == RUSANOV ? D_RUS : f == ROE ? D_ROE : D_OSH; }
// on the real callees the reconstruction stays near a physical state; to the verifier it is arbitrary
static double field(const std::string &n, int i) { return is_symbolic() ? in_any(n) : i == 0 ? in_range(n, 1, 1.1) : i == 1 ? in_range(n, 9, 9.5) : in_range(n, -.05, .05) + ((i == 5 || i == 9 || i == 13) ? 1 : 0); }
static bVec mask_of(unsigned long m, int n) { bVec b(n); for (int i = 0; i < n; i++) b(i) = (m >> i) & 1; return b; }
struct G { int ndim, n[2], nt, f; bool src, time; double dt, dX[2]; bVec mask; Vec u, rec; Par P; };
static G make(int ndim, int nx, int ny, int f, bool src, bool time, bool uniform = false) {
  G g; g.ndim = ndim; g.n[0] = nx; g.n[1] = ny; g.f = f; g.src = src; g.time = time; g.nt = time ? N : 1; g.dt = in_pos("dt"); g.dX[0] = in_pos("dx"); g.dX[1] = in_pos("dy"); g.P = make_par_r(STIFFENED_GAS, false);
  int cells = ndim == 1 ? nx : nx * ny, pc = ndim == 1 ? nx + 2 : (nx + 2) * (ny + 2), per = ndim == 1 ? N : N * N; g.u = Vec(cells * V); g.rec = Vec(pc * g.nt * per * V); g.mask = mask_of(~0ul, pc);
  for (int i = 0; i < g.u.size(); i++) g.u(i) = field("u" + S(i), i % V);
  VecV q; if (uniform) for (int v = 0; v < V; v++) q(v) = field("q" + S(v), v);
  for (int i = 0; i < g.rec.size(); i++) g.rec(i) = uniform ? q(i % V) : field("r" + S(i), i % V); return g;
}
static Vec launch(G &g, const Vec &u0) { Vec u = u0; iVec nX(g.ndim); Vec dX(g.ndim); for (int d = 0; d < g.ndim; d++) { nX(d) = g.n[d]; dX(d) = g.dX[d]; } Par P = g.P; bVec m = g.mask; fv_launcher(u, g.rec, nX, g.dt, dX, g.src, g.time, g.f, P, m); return u; }
static void free_stream(int ndim, int f) {
  G g = make(ndim, 2, 2, f, false, true, true); Vec u = launch(g, g.u); 
  for (int c = 0; c < g.u.size() / V; c++) for (int v = 0; v < V; v++) eq(u(c * V + v), g.u(c * V + v), "uniform flow stays as it is, cell " + S(c) + "[" + S(v) + "]");
}
#define FN1 "fv_launcher centers1 centers1_inner interfs1 interfs1_inner ind"
#define FN2 "fv_launcher centers2 centers2_inner interfs2 interfs2_inner derivs2d endpts2d ind"

UNIT(b_free_stream1_rus, FN1) { free_stream(1, RUSANOV); }
UNIT(b_free_stream1_roe, FN1) { free_stream(1, ROE); }
UNIT(b_free_stream1_osh, FN1) { free_stream(1, OSHER); }
UNIT(b_free_stream2_rus, FN2) { free_stream(2, RUSANOV); }
UNIT(b_free_stream2_roe, FN2) { free_stream(2, ROE); }
UNIT(b_free_stream2_osh, FN2) { free_stream(2, OSHER); }

// The weak space-time form the predictor solves, for every state, in one and two dimensions.
#include "gpr.h"
#include "solvers/dg/dg1.h"
#include "solvers/dg/dg2.h"
#include "solvers/dg/initial_guess.h"
OPTIONAL void initial_condition1(Matr Ww, Matr w);
OPTIONAL void initial_condition2(Matr Ww, Matr w);
static double fld(const std::string &n, int v) { return v == 0 ? in_pos(n + "r") : v < 6 || v >= V - LSET ? in_any(n + "_" + S(v)) : double(v + 1) / 3; }
// residual of test function (t, s), nd space dimensions: node s = (i) or (i, j)
struct W { int nd, sp; Mat q, Ww; double dt, dx[2]; Par P; };
static W make(int nd) { W w; w.nd = nd; w.sp = nd == 1 ? N : N * N; w.dt = in_pos("dt"); w.dx[0] = in_pos("dx"); w.dx[1] = in_pos("dy"); w.P = make_par_r(STIFFENED_GAS, false); w.q = Mat(N * w.sp, V); w.Ww = Mat(N * w.sp, V); for (int s = 0; s < N * w.sp; s++) for (int v = 0; v < V; v++) { w.q(s, v) = fld("q" + S(s), v); w.Ww(s, v) = in_any("W" + S(s) + "_" + S(v)); } if (!is_symbolic()) for (int s = 0; s < N * w.sp; s++) for (int i = 0; i < 9; i++) w.q(s, 5 + i) = (i % 4 ? 0.1 : 1.3); return w; }
static double ws(const W &w, int s) { return w.nd == 1 ? WGHTS(s) : WGHTS(s / N) * WGHTS(s % N); }
static Mat expected(W &w) {
  Mat r(N * w.sp, V);
  for (int t = 0; t < N; t++) for (int s = 0; s < w.sp; s++) {
    VecV q = w.q.row(t * w.sp + s), x, a; source(a, q, w.P);
    for (int d = 0; d < w.nd; d++) { int n = w.nd == 1 ? s : d == 0 ? s / N : s % N; VecV dq = VecV::Zero(); for (int k = 0; k < N; k++) { int o = w.nd == 1 ? k : d == 0 ? k * N + s % N : (s / N) * N + k; dq += DERVALS(n, k) * VecV(w.q.row(t * w.sp + o)); } dq /= w.dx[d]; Bdot(x, q, dq, d, w.P); a -= x; }
    a *= WGHTS(t) * ws(w, s);
    for (int d = 0; d < w.nd; d++) { int n = w.nd == 1 ? s : d == 0 ? s / N : s % N; for (int k = 0; k < N; k++) { int o = w.nd == 1 ? k : d == 0 ? k * N + s % N : (s / N) * N + k; VecV F = VecV::Zero(), p = w.q.row(t * w.sp + o); flux(F, p, d, w.P); double tr = w.nd == 1 ? double(1) : d == 0 ? double(WGHTS(s % N)) : double(WGHTS(s / N)); a -= WGHTS(t) * tr * DG_DER(n, k) / w.dx[d] * F; } }
    r.row(t * w.sp + s) = w.dt * a + VecV(w.Ww.row(t * w.sp + s));
  }
  return r;
}
static void cmp(const Mat &a, const Mat &b, const std::string &n) { for (int s = 0; s < b.rows(); s++) for (int v = 0; v < V; v++) eq(a(s, v), b(s, v), n + " node " + S(s) + "[" + S(v) + "]"); }
static Mat mat_part(W &w) { Mat r = expected(w); for (int t = 0; t < N; t++) for (int s = 0; s < w.sp; s++) for (int k = 0; k < N; k++) r.row(t * w.sp + s) -= DG_MAT(t, k) * ws(w, s) * w.q.row(k * w.sp + s); return r; }
UNIT(rhs_1, "rhs1") { W w = make(1); MatN2_V q = w.q, Ww = w.Ww; MatN2_V r = rhs1(q, Ww, w.dt, w.dx[0], w.P); cmp(r, expected(w), "sources, products and fluxes"); cmp(q, w.q, "iterate is not changed"); cmp(Ww, w.Ww, "initial term is not changed"); }
UNIT(rhs_2, "rhs2 derivs2d") { W w = make(2); MatN3_V q = w.q, Ww = w.Ww; MatN3_V r = rhs2(q, Ww, w.dt, w.dx[0], w.dx[1], w.P); cmp(r, expected(w), "sources, products and fluxes"); cmp(q, w.q, "iterate is not changed"); cmp(Ww, w.Ww, "initial term is not changed"); }
UNIT(residual_1, "obj1 rhs1") { W w = make(1); MatN2_V Ww = w.Ww; Vec q(N * N * V); for (int i = 0; i < q.size(); i++) q(i) = w.q(i / V, i % V); Vec o = obj1(q, Ww, w.dt, w.dx[0], w.P); Mat r(N * N, V); for (int i = 0; i < q.size(); i++) r(i / V, i % V) = o(i); cmp(r, mat_part(w), "residual of the weak form"); }
UNIT(residual_2, "obj2 rhs2") { W w = make(2); MatN3_V Ww = w.Ww; Vec q(N * N * N * V); for (int i = 0; i < q.size(); i++) q(i) = w.q(i / V, i % V); Vec o = obj2(q, Ww, w.dt, w.dx[0], w.dx[1], w.P); Mat r(N * N * N, V); for (int i = 0; i < q.size(); i++) r(i / V, i % V) = o(i); cmp(r, mat_part(w), "residual of the weak form"); }
UNIT(initial_term_1, "initial_condition1") { if (!initial_condition1) return; Mat w(N, V), W(N * N, V); for (int i = 0; i < N; i++) for (int v = 0; v < V; v++) w(i, v) = in_any("w" + S(i) + "_" + S(v)); Mat w0 = w; initial_condition1(W, w); for (int t = 0; t < N; t++) for (int i = 0; i < N; i++) for (int v = 0; v < V; v++) eq(W(t * N + i, v), ENDVALS(0, t) * WGHTS(i) * w0(i, v), "node " + S(t) + "," + S(i) + "[" + S(v) + "]"); }
UNIT(initial_term_2, "initial_condition2") { if (!initial_condition2) return; Mat w(N * N, V), W(N * N * N, V); for (int i = 0; i < N * N; i++) for (int v = 0; v < V; v++) w(i, v) = in_any("w" + S(i) + "_" + S(v)); Mat w0 = w; initial_condition2(W, w); for (int t = 0; t < N; t++) for (int i = 0; i < N * N; i++) for (int v = 0; v < V; v++) eq(W(t * N * N + i, v), ENDVALS(0, t) * WGHTS(i / N) * WGHTS(i % N) * w0(i, v), "node " + S(t) + "," + S(i) + "[" + S(v) + "]"); }
// constant in time: without sources and gradients the reconstruction solves the weak form
UNIT(guesses, "standard_initial_guess1 standard_initial_guess2 stiff_initial_guess") {
  Par P = make_par_r(STIFFENED_GAS, false); double dt = in_pos("dt");
  for (int nd = 1; nd <= 2; nd++) for (int k = 0; k < 2; k++) { int sp = nd == 1 ? N : N * N; Mat w(sp, V), q(N * sp, V); for (int i = 0; i < sp; i++) for (int v = 0; v < V; v++) w(i, v) = in_any("w" + S(i) + "_" + S(v)); Mat w0 = w; if (k) stiff_initial_guess(q, w, sp, dt, P); else if (nd == 1) standard_initial_guess1(q, w); else standard_initial_guess2(q, w);
    for (int s = 0; s < N * sp; s++) for (int v = 0; v < V; v++) eq(q(s, v), w0(s % sp, v), std::string(k ? "stiff" : "standard") + " guess " + S(nd) + "D node " + S(s) + "[" + S(v) + "]"); }
}
// the reconstruction, constant in time, has no residual where nothing happens: (DG_MAT x w) const = initial term
UNIT(constant_in_time, "DG_MAT ENDVALS") { for (int t = 0; t < N; t++) { double s = 0; for (int k = 0; k < N; k++) s = s + DG_MAT(t, k); eq(s, ENDVALS(0, t), "row " + S(t)); } }

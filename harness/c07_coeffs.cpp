// One cell: the reconstruction keeps the average, reproduces polynomials of degree N-1, and is the convex combination of
// the polynomials of its stencils with the WENO weights.
#include "weno_ref.h"
OPTIONAL void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind);
static double avg(const VecN &w) { double s = 0; for (int a = 0; a < N; a++) s = s + WGHTS(a) * w(a); return s; }
static Mat2N_V stencil_data(const std::string &n) { Mat2N_V d; for (int i = 0; i < W; i++) for (int v = 0; v < V; v++) d(i, v) = v < 2 ? in_any(n + S(i) + "_" + S(v)) : double(v) / 7 + i * i; return d; }
struct Case { int nx, gap, ind; };
// coeffs uses nx, gap and ind only to decide which stencils take part: one case per combination
static const Case CASES[] = {{9, 0, 4}, {9, 2, 0}, {9, 2, 8}, {9, 1, 0}, {9, 1, 8}, {9, 1, 1}, {9, 1, 7}, {9, 2, 1}, {9, 2, 7}, {9, 2, 2}, {9, 2, 6}, {9, 0, 0}, {9, 0, 8}};
static MatN_V run_coeffs(Mat2N_V d, Case c) { MatN_V r; for (int i = 0; i < r.size(); i++) r.data()[i] = 77; coeffs(r, d, c.nx, c.gap, c.ind); return r; }
static std::string nm(const Case &c) { return " gap" + S(c.gap) + " cell" + S(c.ind) + " of" + S(c.nx); }
UNIT(coeffs_average, "coeffs weight") {
  Mat2N_V d = stencil_data("u"); for (auto &c : CASES) { MatN_V r = run_coeffs(d, c); for (int v = 0; v < V; v++) eq(avg(r.col(v)), d(N - 1, v), "average of the cell kept" + nm(c) + "[" + S(v) + "]"); }
}
UNIT(coeffs_polynomial, "coeffs weight") {
  Mat2N_V d; double c[N][2]; for (int k = 0; k < N; k++) for (int v = 0; v < 2; v++) c[k][v] = in_any("c" + S(k) + "_" + S(v));
  for (int i = 0; i < W; i++) for (int v = 0; v < V; v++) { double s = 0; for (int k = 0; k < N; k++) s = s + c[k][v % 2] * mono_avg(k, i); d(i, v) = s; }
  for (auto &q : CASES) { MatN_V r = run_coeffs(d, q); for (int a = 0; a < N; a++) for (int v = 0; v < V; v++) { double s = 0, x = 1; for (int k = 0; k < N; k++) { s = s + c[k][v % 2] * x; x = x * NODES(a); } eq(r(a, v), s, "polynomial reproduced at node " + S(a) + nm(q) + "[" + S(v) + "]"); } }
}
static void law(Case c) {
  Mat2N_V d = stencil_data("u"); MatN_V r = run_coeffs(d, c);
  for (int v = 0; v < 2; v++) {
    std::vector<double> x; for (int i = 0; i < W; i++) x.push_back(d(i, v));
    struct St { int first; real_double lam; bool on; }; std::vector<St> st = {{0, 1, c.ind >= c.gap}, {N - 1, 1, c.ind <= c.nx - c.gap - 1}};
    if (N > 2) st.push_back({FN2, 1e5, c.ind + FN2 >= c.gap}); if (N > 2 && N % 2 == 0) st.push_back({CN2, 1e5, c.ind - FN2 <= c.nx - c.gap - 1});
    double den = 0; VecN num = VecN::Zero(); for (auto &s : st) if (s.on) { VecN w = fit(x, s.first); double o = weight_of(w, s.lam); gt(o, 0, "weights are positive"); den = den + o; for (int a = 0; a < N; a++) num(a) = num(a) + o * w(a); }
    for (int a = 0; a < N; a++) eq(r(a, v) * den, num(a), "convex combination of the stencil polynomials, node " + S(a) + nm(c) + "[" + S(v) + "]");
  }
}
UNIT(coeffs_law_inner, "coeffs weight") { law(CASES[0]); law(CASES[11]); law(CASES[12]); }
UNIT(coeffs_law_left, "coeffs weight") { law(CASES[1]); law(CASES[3]); law(CASES[7]); }
UNIT(coeffs_law_right, "coeffs weight") { law(CASES[2]); law(CASES[4]); law(CASES[8]); }
UNIT(coeffs_law_near, "coeffs weight") { law(CASES[5]); law(CASES[6]); law(CASES[9]); law(CASES[10]); }
UNIT(coeffs_weight, "weight coeffs") {
  VecN w; for (int a = 0; a < N; a++) w(a) = in_any("w" + S(a)); double t = 0; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) t = t + w(a) * SIG(a, b) * w(b);
  ge(t, 0, "oscillation indicator is non-negative"); for (int b = 0; b < N; b++) { double s = 0; for (int a = 0; a < N; a++) s = s + SIG(b, a); eq(s, 0, "constants do not oscillate"); }
}

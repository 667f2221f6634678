// The reconstruction the WENO functions are held to: convex combination of the stencil polynomials, one axis at a time.
#pragma once
#include "gpr.h"
static const int W = 2 * N - 1;
static double weight_of(const VecN &w, real_double lam) { double t = 0; for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) t = t + w(a) * SIG(a, b) * w(b); t = t + EPS; double t2 = t * t, t4 = t2 * t2; return lam / (t4 * t4); }
// averages of x^k over cell i of the stencil (the middle cell is [0,1])
static double mono_avg(int k, int i) { int lo = i - (N - 1), hi = lo + 1; double a = 1, b = 1; for (int j = 0; j <= k; j++) { a = a * lo; b = b * hi; } return (b - a) / (k + 1); }
static VecN fit(const std::vector<double> &d, int first) { // node values of the polynomial whose averages over N cells from `first` are the data
  Mat M(N, N); Vec b(N); for (int i = 0; i < N; i++) { for (int k = 0; k < N; k++) M(i, k) = mono_avg(k, first + i); b(i) = d[first + i]; }
  Vec c = M.colPivHouseholderQr().solve(b); VecN w; for (int a = 0; a < N; a++) { double s = 0, x = 1; for (int k = 0; k < N; k++) { s = s + c(k) * x; x = x * NODES(a); } w(a) = s; } return w;
}
// d: the 2N-1 averages around the cell; left / right: which one-sided stencils take part
static VecN weno_ref(const std::vector<double> &d) {
  std::vector<std::pair<int, real_double>> st = {{0, 1}, {N - 1, 1}}; if (N > 2) st.push_back({FN2, 1e5}); if (N > 2 && N % 2 == 0) st.push_back({CN2, 1e5});
  double den = 0; VecN num = VecN::Zero(); for (auto &s : st) { VecN w = fit(d, s.first); double o = weight_of(w, s.second); den = den + o; for (int a = 0; a < N; a++) num(a) = num(a) + o * w(a); }
  return num / den;
}

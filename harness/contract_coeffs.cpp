// Contract of coeffs (proved in c07_coeffs): some combination, summing to one, of the polynomials of the stencils that
// take part; the weights are arbitrary functions of the data.
#include "weno_ref.h"
void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
  bool L = ind >= gap, R = ind <= nx - gap - 1;
  for (int v = 0; v < V; v++) {
    std::vector<double> x; for (int i = 0; i < W; i++) x.push_back(data(i, v));
    std::vector<int> st; if (L) st.push_back(0); if (R) st.push_back(N - 1); if (N > 2 && ind + FN2 >= gap) st.push_back(FN2); if (N > 2 && N % 2 == 0 && ind - FN2 <= nx - gap - 1) st.push_back(CN2);
    VecN r = VecN::Zero(); double rest = 1; for (size_t k = 0; k < st.size(); k++) { double o = k + 1 == st.size() ? rest : any_fn("om" + S((int)k), x); rest = rest - o; r += o * fit(x, st[k]); }
    for (int a = 0; a < N; a++) ret(a, v) = r(a);
  }
}

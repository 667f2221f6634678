// The Newton loop: returns a point whose residual it has computed and found small, or has made all its steps.
#include "gpr.h"
#include "scipy/newton_krylov.h"
#include "contract_lgmres.h"
static double mag(double x) { return x < 0 ? -x : x; }
static double top(const Vec &v) { double m = mag(v(0)); for (int i = 1; i < v.size(); i++) m = mag(v(i)) > m ? mag(v(i)) : m; return m; }
static bool same(const Vec &a, const Vec &b) { for (int i = 0; i < a.size(); i++) if (!(a(i) == b(i))) return false; return true; }
// F: scripted residuals at the points the iteration visits, linear in between
static void loop(int n, const std::vector<double> &script, double ftol, bool tight, const std::string &t, double size = 1) {
  std::vector<Vec> at, Fs; Vec cur; bool probing = false; Vec slope(n); for (int i = 0; i < n; i++) slope(i) = in_any("slope" + S(i));
  Vec x0(n); for (int i = 0; i < n; i++) x0(i) = 1 + i; int steps = 0;
  VecFunc F = [&](Vecr y) -> Vec { if (probing) { Vec r = Fs.back(); for (int q = 0; q < (int)at.size(); q++) if (same(at[q], cur)) r = Fs[q]; for (int i = 0; i < n; i++) r(i) = r(i) + slope(i) * (y(i) - cur(i)); return r; }
    for (size_t k = 0; k < at.size(); k++) if (same(at[k], y)) return Fs[k]; Vec r(n); for (int i = 0; i < n; i++) r(i) = (i % 2 ? -1 : 1) * ((at.size() < script.size() ? script[at.size()] : script.back()) + double((int)at.size()) / 1073741824); at.push_back(y); Fs.push_back(r); return r; };
  Vec x = x0; cur = x0;
  linear_solver = [&](VecFunc mv, Vecr b, double tol) -> Vec { steps++; std::string w = t + " step " + S(steps); int k = -1; for (size_t q = 0; q < at.size(); q++) { bool hit = true; for (int i = 0; i < n; i++) if (!(Fs[q](i) == b(i))) hit = false; if (hit) k = q; }
    ensure(k >= 0, "solves for a residual of the function" + w); gt(tol, 0, "to a positive tolerance" + w); gt(1, tol, "below one" + w); if (k >= 0) { Vec v(n); for (int i = 0; i < n; i++) v(i) = i ? 0 : 2; cur = at[k]; probing = true; Vec r = mv(v); probing = false; for (int i = 0; i < n; i++) eq(r(i), i ? double(0) : slope(i) * 2, "with the Jacobian at the point of that residual" + w + S(i)); }
    Vec d(n); for (int i = 0; i < n; i++) d(i) = size * double(1 + steps) / (2 + i); return d; };
  Vec r = tight ? nonlin_solve(F, x, ftol, INF, 0.25) : nonlin_solve(F, x, ftol); linear_solver = nullptr;
  ensure(r.size() == n, "size" + t); int k = -1; for (size_t q = 0; q < at.size(); q++) if (same(at[q], r)) k = q; ensure(k >= 0, "the residual was computed at the point returned" + t); if (k < 0) return;
  ensure(steps <= 3 * (n + 1), "no more steps than allowed" + t); if (steps < 3 * (n + 1)) ge(ftol, top(Fs[k]), "stops early only at a residual below the tolerance" + t); ensure(steps > 0 || same(r, x0), "no step, no change" + t);
}
static const double LV[5] = {0.5, 0.001, 3, 0.01, 40};
#define LO(a, n) UNIT(b_loop##n##_##a, "nonlin_solve KrylovJacobian") { for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int d = 0; d < 3; d++) loop(n, {LV[a], LV[b], LV[c], LV[2 * d], LV[(a + b) % 5], LV[(a + c) % 5], LV[(b + d) % 5], LV[(c + 2 * d) % 5], LV[b], LV[a], LV[c], LV[d]}, d == 1 ? 0.01 : 0.002, c % 2, " (" #n " unknowns, script " #a + S(b) + S(c) + S(d) + ")"); }
LO(0, 1) LO(1, 1) LO(2, 1) LO(3, 1) LO(4, 1) LO(0, 2) LO(2, 2) LO(4, 2)
UNIT(b_loop_decreasing, "nonlin_solve KrylovJacobian") { for (int n = 1; n < 4; n++) for (int k = 1; k < 14; k++) { std::vector<double> s; double v = 8; for (int i = 0; i < 20; i++) { s.push_back(v); v = v / (1 + k); } loop(n, s, 0.0009765625, false, " (" + S(n) + " unknowns, residual divided by " + S(k + 1) + ")"); } }
UNIT(b_loop_default, "nonlin_solve KrylovJacobian") { for (int k = 1; k < 5; k++) { std::vector<double> s; double v = 1; for (int i = 0; i < 20; i++) { s.push_back(v); v = v / (10 * k * k); } Vec x(1); x(0) = 2; std::vector<Vec> at, Fs; linear_solver = [&](VecFunc, Vecr b, double) -> Vec { Vec d(1); d(0) = 0.5; return d; }; VecFunc F = [&](Vecr y) -> Vec { for (size_t q = 0; q < at.size(); q++) if (same(at[q], y)) return Fs[q]; Vec r(1); r(0) = s[at.size()]; at.push_back(y); Fs.push_back(r); return r; }; Vec r = nonlin_solve(F, x); linear_solver = nullptr; int q0 = -1; for (size_t q = 0; q < at.size(); q++) if (same(at[q], r)) q0 = q; ensure(q0 >= 0, "computed at the point returned " + S(k)); if (q0 >= 0 && at.size() < 7) gt(0.00001, Fs[q0](0), "default tolerance " + S(k)); } }
// steps from a millionth of a millionth to a million: the residual alone decides
UNIT(b_loop_step_sizes, "nonlin_solve KrylovJacobian") { for (int n = 1; n < 3; n++) for (int k = 0; k < 5; k++) for (int a = 0; a < 5; a++) for (int f = 0; f < 2; f++) { double z = k == 0 ? double(1) / 1099511627776. : k == 1 ? double(1) / 1048576 : k == 2 ? double(1) / 1024 : k == 3 ? double(1024) : double(1048576); loop(n, {LV[4] + a, LV[a] + 7, LV[(a + 2) % 5] + 2, 0.75, 0.375, LV[(a + 1) % 5], LV[a], 0.001}, f ? 0.5 : 0.002, false, " (" + S(n) + " unknowns, steps of size class " + S(k) + S(a) + S(f) + ")", z); } }

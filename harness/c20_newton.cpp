// Newton-Krylov: what the nonlinear and linear solvers return was checked against the equations they were given.
#include "gpr.h"
#define private public
#include "scipy/newton_krylov.h"
#undef private
#include "scipy/lgmres.h"
OPTIONAL void _nonlin_line_search(VecFunc func, Vecr x, Vecr Fx, Vecr dx);
static double mag(double x) { return x < 0 ? -x : x; }
static double top(const Vec &v) { double m = mag(v(0)); for (int i = 1; i < v.size(); i++) m = mag(v(i)) > m ? mag(v(i)) : m; return m; }
static Vec vec_in(int n, const std::string &s) { Vec v(n); for (int i = 0; i < n; i++) v(i) = in_any(s + S(i)); return v; }
static Vec F_any(Vecr x) { Vec r(x.size()); std::vector<double> a; for (int i = 0; i < x.size(); i++) a.push_back(x(i)); for (int i = 0; i < x.size(); i++) r(i) = any_fn("F" + S(i), a); return r; }
static double sq(const Vec &v) { double s = 0; for (int i = 0; i < v.size(); i++) s += v(i) * v(i); return s; }
// ---- when the iteration may stop
static Vec signed_in(int n, int b, const std::string &s) { Vec v(n); for (int i = 0; i < n; i++) v(i) = (b >> i & 1 ? -1 : 1) * in_pos(s + S(i)); return v; }
static void stops(int n, int sg, bool rel, bool xt) {
  double ft = in_pos("ftol"), fr = rel ? in_pos("frtol") : INF, xo = xt ? in_pos("xtol") : INF; TerminationCondition c(ft, fr, xo, INF); Vec x = Vec::Constant(n, 2);
  Vec f0 = signed_in(n, sg ^ 1, "g"), e0 = Vec::Constant(n, 0.5); c.check(f0, x, e0); double n0 = top(f0); // the first residual is the reference
  Vec f = signed_in(n, sg, "f"), dx = xt ? signed_in(n, sg ^ 2, "d") : Vec(Vec::Constant(n, -0.25)); int r = c.check(f, x, dx); double fn = top(f);
  std::string t = " (" + S(n) + "," + S(sg) + (rel ? ", relative" : "") + (xt ? ", step" : "") + ")";
  if (r) { ge(ft, fn, "stops only if the residual is below the tolerance" + t); if (rel) ge(n0 * fr, fn, "stops only if the residual has dropped" + t); if (xt) ge(xo, top(dx), "stops only if the step is small" + t); }
  else { bool ok = fn <= ft && fn / fr <= n0 && top(dx) <= xo && top(dx) / INF <= 2; ensure(!ok, "stops once the tolerances are met" + t); }
}
#define FS "TerminationCondition check maxnorm"
UNIT(stop1, FS) { for (int g = 0; g < 2; g++) stops(1, g, false, false); }
UNIT(stop1_relative, FS) { stops(1, 0, true, false); }
UNIT(stop1_step, FS) { stops(1, 1, false, true); }
UNIT(stop1_both, FS) { stops(1, 1, true, true); }
#define ST(g) UNIT(stop2_##g, FS) { stops(2, g, false, false); }
ST(0) ST(1) ST(2) ST(3)
UNIT(stop2_relative, FS) { stops(2, 1, true, false); }
UNIT(stop_root, FS) { for (int n = 1; n < 4; n++) { TerminationCondition c(in_pos("ftol"), INF, INF, INF); Vec f = Vec::Zero(n), x = vec_in(n, "x"), dx = vec_in(n, "d"); if (n < 3) ensure(c.check(f, x, dx), "stops at a root " + S(n)); } }
// ---- the product with the Jacobian
static void product(int n, bool linear, int upd) {
  Mat A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = in_any("A" + S(i) + S(j)); Vec k = vec_in(n, "k"); std::vector<Vec> at; Vec x = linear ? vec_in(n, "x") : signed_in(n, 2, "x");
  VecFunc F = [&](Vecr y) -> Vec { at.push_back(y); if (!linear) return F_any(y); Vec r = A * y; r += k; return r; };
  Vec f = linear ? Vec(A * x + k) : F_any(x); Vec p = upd ? signed_in(n, 1, "p") : x, fp = upd ? (linear ? Vec(A * p + k) : F_any(p)) : f; KrylovJacobian J(p, fp, F); if (upd) J.update(x, f);
  Vec v = signed_in(n, 1, "v"); Vec r = J.matvec(v); std::string t = " (" + S(n) + (upd ? ", after an update" : "") + ")";
  if (linear) { eqm(r, Vec(A * v), "the product with the matrix of a linear function" + t); return; }
  ensure(at.size() == 1, "one evaluation" + t); if (at.size() != 1) return; double sx = top(x), sf = top(f); sx = sx > 1 ? sx : double(1); sf = sf > 1 ? sf : double(1); double w = std::pow(mEPS, 0.5) * sx / sf / sqrt(sq(v)); 
  for (int i = 0; i < n; i++) { eq(at[0](i), x(i) + w * v(i), "a small step along the direction, scaled with the solution" + t + S(i)); eq(r(i) * w, F_any(at[0])(i) - f(i), "the difference quotient" + t + S(i)); }
}
#define FM "KrylovJacobian matvec update update_diff_step"
UNIT(product_linear1, FM) { product(1, true, 0); }
UNIT(product_linear2, FM) { product(2, true, 0); }
UNIT(product_linear3, FM) { product(3, true, 0); }
UNIT(product_linear2_moved, FM) { product(2, true, 1); }
UNIT(product_any1, FM) { product(1, false, 0); }
UNIT(product_any1_moved, FM) { product(1, false, 1); }
UNIT(product_zero, FM) { Vec x = vec_in(2, "x"), f = vec_in(2, "f"), v = Vec::Zero(2); KrylovJacobian J(x, f, [](Vecr y) -> Vec { return F_any(y); }); Vec r = J.matvec(v); ensure(r.size() == 2, "size"); for (int i = 0; i < 2; i++) eq(r(i), 0, "nothing along no direction"); }
// ---- the line search: the residual it leaves belongs to the point it leaves, and decreases unless the full step is taken
static void search(int n, const std::vector<double> &script, const std::string &t) {
  if (!_nonlin_line_search) return; Vec x0 = Vec::Constant(n, 0.25), x = x0, dx = Vec::Constant(n, -1.5), F0 = Vec::Constant(n, 2), Fx = F0; std::vector<Vec> at, Fs; Vec dx0 = dx;
  _nonlin_line_search([&](Vecr y) -> Vec { for (size_t k = 0; k < at.size(); k++) { Vec q = y; bool same = true; for (int i = 0; i < n; i++) if (!(q(i) - at[k](i) == 0)) same = false; if (same) return Fs[k]; } Vec r = Vec::Constant(n, at.size() < script.size() ? script[at.size()] : double(7)); r(0) = -r(0); at.push_back(y); Fs.push_back(r); return r; }, x, Fx, dx);
  double s = (x(0) - x0(0)) / dx0(0); for (int i = 0; i < n; i++) { eq(x(i), x0(i) + s * dx0(i), "moves along the step " + S(i) + t); eq(dx(i), dx0(i), "the step is not changed " + S(i) + t); }
  int k = -1; for (size_t q = 0; q < at.size(); q++) if (at[q](0) - x(0) == 0) k = q; ensure(k >= 0, "the residual was computed at the new point" + t); if (k < 0) return; eqm(Fx, Fs[k], "the residual belongs to the new point" + t);
  if (!(s == 1)) { gt(sq(F0), sq(Fs[k]), "a shortened step decreases the residual" + t); ge((1 - s / 10000) * sq(F0), sq(Fs[k]), "sufficient decrease" + t); gt(s, 0, "forwards" + t); gt(1, s, "and shorter" + t); } else if (at.size() == 1) ge(sq(F0) * 0.9999, sq(Fs[k]), "a full step at once decreases the residual" + t); else ensure(at.size() > 1, "the full step without decrease only after shorter ones" + t);
}
static const double LV[6] = {0.5, 1.9999, 2, 2.5, 9, 60};
#define SE_(a) UNIT(b_search_##a, "_nonlin_line_search scalar_search_armijo phi") { for (int b = 0; b < 6; b++) for (int c = 0; c < 6; c++) for (int d = 0; d < 3; d++) search(1, {LV[a], LV[b], LV[c], LV[2 * d], LV[(a + b + d) % 5 + 1], LV[(c + d) % 5 + 1], LV[(b + c) % 6], LV[b]}, " (script " #a + S(b) + S(c) + S(d) + ")"); }
SE_(0) SE_(1) SE_(2) SE_(3) SE_(4) SE_(5)
UNIT(b_search_wide, "_nonlin_line_search scalar_search_armijo phi") { for (int a = 0; a < 6; a++) search(3, {LV[a], LV[5 - a], LV[a / 2], 0.25}, " (3 unknowns, script " + S(a) + ")"); }
UNIT(search_first, "_nonlin_line_search scalar_search_armijo phi") { // any residual that the full step decreases
  if (!_nonlin_line_search) return; Vec x0 = vec_in(2, "x"), x = x0, dx = vec_in(2, "d"), F0 = signed_in(2, 1, "F"), Fx = F0, F1 = signed_in(2, 2, "G"); req_ge(sq(F0) - sq(F0) / 10000, sq(F1)); int calls = 0; Vec at;
  _nonlin_line_search([&](Vecr y) -> Vec { calls++; at = y; return F1; }, x, Fx, dx); ensure(calls == 1, "one evaluation"); eqm(at, x, "at the new point"); eqm(x, Vec(x0 + dx), "the full step"); eqm(Fx, F1, "with its residual"); }
// ---- the linear solver
static void cycle(int n, int m, int outer, bool pre, bool diag, bool guess, const std::string &t) {
  Mat A = Mat::Zero(n, n), M = Mat::Identity(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!diag || i == j) A(i, j) = in_any("A" + S(i) + S(j)); Vec b(n); for (int i = 0; i < n; i++) b(i) = n == 2 ? 3 + i : 1 + (i + 1) / 2; if (pre) for (int i = 0; i < n; i++) M(i, i) = i + 2;
  Vec x0 = Vec::Zero(n); if (guess) x0 = vec_in(n, "x"); std::vector<Vec> ov, z; for (int k = 0; k < outer; k++) { Vec u = Vec::Zero(n); u(k) = 1; ov.push_back(u); } std::vector<Vec> ov0 = ov; bool first = true;
  VecFunc mv = [&](Vecr y) -> Vec { if (first) { first = false; for (int i = 0; i < n; i++) eq(y(i), x0(i), "starts from the guess" + t + S(i)); } else z.push_back(y); Vec r = A * y; return r; }; VecFunc ps = [&](Vecr y) -> Vec { Vec r = M * y; return r; };
  Vec x = lgmres(mv, ps, b, x0, ov, 0.0009765625, 1, m, outer + 1); ensure(x.size() == n, "size" + t); if (z.empty()) { eqm(x, x0, "no step without need" + t); Vec r = A * x0 - b; ge(sq(b) / 1048576 > double(1) / 1048576 ? sq(b) / 1048576 : double(1) / 1048576, sq(r), "no step only if the guess is good" + t); return; }
  Vec r = M * (A * x - b); for (size_t k = 0; k < z.size(); k++) { Vec a = M * (A * z[k]); double d = 0; for (int i = 0; i < n; i++) d += a(i) * r(i); eq(d, 0, "the residual is least over the directions tried" + t + S(k)); }
  for (int k = 0; k < outer; k++) for (int i = 0; i < n; i++) eq(ov[k](i), ov0[k](i), "earlier corrections are kept" + t); 
  if (ov.size() > ov0.size()) { ensure(ov.size() == ov0.size() + 1, "one correction is added" + t); eq(sq(ov.back()), 1, "of unit length" + t); if (n == 2) eq(ov.back()(0) * (x(1) - x0(1)), ov.back()(1) * (x(0) - x0(0)), "along the step" + t); }
}
#define FL "lgmres"
UNIT(cycle1, FL) { cycle(2, 1, 0, false, false, false, " (2 unknowns, 1 direction)"); }
UNIT(cycle1_diag, FL) { cycle(2, 1, 0, false, true, false, " (2 unknowns, diagonal)"); }
UNIT(cycle1_prec, FL) { cycle(2, 1, 0, true, true, false, " (2 unknowns, preconditioned)"); }
UNIT(cycle2_outer, FL) { cycle(3, 1, 1, false, true, false, " (3 unknowns, an earlier correction)"); }

// What the time loop sees of the functions it calls: arbitrary functions of everything they may read. The step size and the
// contortion test follow a script (concrete numbers of the time reached), so that the loop runs on concrete times.
#include "etc/globals.h"
#include "etc/grid.h"
#include "multi/fill.h"
#include "solvers/iterator.h"
#include "solvers/steppers.h"
#include "solvers/utils.h"
#include "contract_iterator.h"
Script SC;
static void put(std::vector<double> &a, const Vec &v) { for (int i = 0; i < v.size(); i++) a.push_back(v(i)); }
static void put(std::vector<double> &a, const aVec &v) { for (int i = 0; i < v.size(); i++) a.push_back(v(i)); }
static void put(std::vector<double> &a, const iVec &v) { a.push_back(double(v.size())); for (int i = 0; i < v.size(); i++) a.push_back(double(v(i))); }
static void put(std::vector<double> &a, const bVec &v) { double x = 0, w = 1; for (int i = 0; i < v.size(); i++) { x += w * double(v(i) ? 1 : 0); w *= 2; } a.push_back(x); }
static void put(std::vector<double> &a, std::vector<Par> &P) { for (auto &p : P) a.push_back(p.ρ0); }
// a digest: one arbitrary function of all arguments, from which all outputs are made
static double digest(const char *n, const std::vector<double> &a) { return any_fn(n, a); }
static void out(const char *n, Vecr r, const double &h, int lo, int hi) { for (int i = 0; i < r.size(); i++) if (i % V >= lo && i % V < hi) r(i) = any_fn(n, {h, double(i)}); }
void fill_ghost_cells(std::vector<Vec> &g, std::vector<bVec> &m, Vecr u, iVecr nX, aVecr dX, double dt, std::vector<Par> &P) {
  std::vector<double> a; put(a, Vec(u)); put(a, iVec(nX)); put(a, aVec(dX)); a.push_back(dt); put(a, P); double h = digest("ghost", a);
  out("levels", u, h, V - LSET, V);
  for (size_t k = 0; k < g.size(); k++) { if (P[k].EOS > -1) out(("ghost" + S(k)).c_str(), g[k], h, 0, V); for (int i = 0; i < m[k].size(); i++) m[k](i) = P[k].EOS > -1 && ((i + k) % 3 != 1); }
}
double timestep(std::vector<Vec> &g, std::vector<bVec> &m, aVecr dX, double CFL, double t, double tf, int count, std::vector<Par> &P, int nmat) {
  std::vector<double> a; for (size_t k = 0; k < g.size(); k++) if (P[k].EOS > -1) { put(a, g[k]); put(a, m[k]); } put(a, aVec(dX)); a.push_back(CFL); a.push_back(t); a.push_back(tf); a.push_back(double(count)); put(a, P); a.push_back(double(nmat));
  SC.seen.push_back(digest("step", a)); double left = tf - t; real_double d = SC.dt[std::min<size_t>(SC.seen.size() - 1, SC.dt.size() - 1)]; return SC.seen.size() < SC.dt.size() ? double(d) : left;
}
void boundaries(Vecr u, Vecr ub, iVecr nX, iVecr b) { std::vector<double> a; put(a, Vec(u)); put(a, iVec(nX)); put(a, iVec(b)); double h = digest("edge", a); out("edge", ub, h, 0, V); }
void extend_mask(bVecr m, bVecr mb, iVecr nX) { for (int i = 0; i < mb.size(); i++) mb(i) = m(i % m.size()) != (i % 4 == 0); }
static void stepper(const char *n, Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask) { std::vector<double> a; put(a, Vec(u)); put(a, Vec(ub)); put(a, iVec(nX)); a.push_back(dt); put(a, Vec(dX)); a.push_back(double(f ? 1 : 0)); a.push_back(double(F)); a.push_back(P.ρ0); put(a, bVec(mask)); double h = digest(n, a); out(n, u, h, 0, V); }
void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask) { stepper("ader", u, ub, nX, dt, dX, f, F, P, mask); }
void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool f, int F, Par &P, bVecr mask) { stepper("split", u, ub, nX, dt, dX, f, F, P, mask); }
void make_u(Vecr u, std::vector<Vec> &g, std::vector<bVec> &m, std::vector<Par> &P) {
  std::vector<double> a; put(a, Vec(u)); for (size_t k = 0; k < g.size(); k++) if (P[k].EOS > -1) { put(a, g[k]); put(a, m[k]); } put(a, P); double h = digest("make", a); out("make", u, h, 0, V); SC.steps++;
  if (SC.steps == SC.nan_at) u(3) = not_a_number();
}
static void whole(const char *n, Vecr u, std::vector<Par> &P) { std::vector<double> a; put(a, Vec(u)); put(a, P); double h = digest(n, a); bool nan = false; for (int i = 0; i < u.size(); i++) nan |= std::isnan(u(i)); if (!nan) out(n, u, h, 5, 14); }
void renorm_distortion(Vecr u, std::vector<Par> &P) { whole("renorm", u, P); }
void rotate_distortion(Vecr u, std::vector<Par> &P) { whole("rotate", u, P); }
void reset_distortion(Vecr u, std::vector<Par> &P) { whole("reset", u, P); }
bool contorted(Vecr u, double tol) { std::vector<double> a; put(a, Vec(u)); a.push_back(tol); SC.tested.push_back(digest("contorted", a)); return SC.steps % 3 == SC.contort; }

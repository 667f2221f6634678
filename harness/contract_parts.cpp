// What one step sees of the functions it is made of: arbitrary functions of everything they may read.
#include "etc/globals.h"
#include "solvers/dg/dg.h"
#include "solvers/fv/fv.h"
#include "solvers/split/homogeneous.h"
#include "solvers/split/ode.h"
#include "solvers/weno/weno.h"
#include "h.h"
template <class T> static void put(std::vector<double> &a, const T &v) { a.push_back(double(int(v.size()))); for (int i = 0; i < v.size(); i++) a.push_back(double(v(i))); }
static void put(std::vector<double> &a, const bVec &v) { double x = 0, w = 1; for (int i = 0; i < v.size(); i++) { x += w * double(v(i) ? 1 : 0); w *= 2; } a.push_back(x); }
static void out(const char *n, Vecr r, const std::vector<double> &a, int from = 0) { double h = any_fn(n, a); for (int i = from; i < r.size(); i++) r(i) = any_fn(n + S(i), {h}); }
static double b(bool x) { return double(x ? 1 : 0); }
void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &P) { std::vector<double> a{double(int(wh.size())), P.ρ0}; put(a, ub); put(a, nX); out("weno", wh, a); }
void predictor(Vecr q, Vecr w, double dt, Vecr dX, bool STIFF, bool STIFF_IC, Par &P, bVecr mask) { std::vector<double> a{double(int(q.size())), dt, b(STIFF), b(STIFF_IC), P.ρ0}; put(a, w); put(a, dX); put(a, bVec(mask)); out("dg", q, a); }
void fv_launcher(Vecr u, Vecr rec, iVecr nX, double dt, Vecr dX, bool S, bool T, int F, Par &P, bVecr mask) { std::vector<double> a{dt, b(S), b(T), double(F), P.ρ0}; put(a, u); put(a, rec); put(a, nX); put(a, dX); put(a, bVec(mask)); out("fv", u, a); }
void ode_launcher(Vecr u, double dt, Par &P) { std::vector<double> a{dt, P.ρ0}; put(a, u); out("ode", u, a); }
void midstepper(Vecr w, double dt, Vecr dX, Par &P, bVecr mask) { std::vector<double> a{dt, P.ρ0}; put(a, w); put(a, dX); put(a, bVec(mask)); out("mid", w, a); }

// Harness interface: the same contract text is compiled symbolically (double = Sym)
// and natively (double = double; used to replay counterexamples on the real code).
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <cmath>
#include <iostream>
#ifndef SYMBOLIC
typedef double real_double;
#endif
struct UnitReg { const char *name, *fns; void (*fn)(); int order; UnitReg(const char *n, const char *f, void (*g)()); };
std::vector<UnitReg *> &all_units();
#define UNIT(id, fns) static void id(); static UnitReg reg_##id(#id, fns, id); static void id()

double in_pos(const std::string &name);                    // any positive real
double in_any(const std::string &name);                    // any real
double in_range(const std::string &name, real_double lo, real_double hi);
void assume(bool c);
void req_gt(const double &a, const double &b);             // precondition a > b (no case split)
void req_ge(const double &a, const double &b);
void req_eq(const double &a, const double &b);
void req_ne(const double &a, const double &b);
void req_finite(const double &a);                         // precondition on machine arithmetic: no overflow, no NaN
void eq(const double &a, const double &b, const std::string &name);   // postcondition a == b
void ge(const double &a, const double &b, const std::string &name);
void gt(const double &a, const double &b, const std::string &name);
void ne(const double &a, const double &b, const std::string &name);
void ensure(bool c, const std::string &name);
double deriv(const std::function<double(double)> &f, double x); // df/dx at x
// an internal function: if it is renamed or made static, the units on it fall away and its callers' contracts remain
#define OPTIONAL __attribute__((weak))
typedef std::vector<double> Reals;
std::vector<Reals> jac(const std::function<Reals(Reals)> &f, const Reals &x); // J[i][j] = df_i/dx_j at x (x: distinct inputs)
void defined(const double &a, const std::string &name);               // value is initialised
void square_of(const double &x, const double &y);          // lemma: x = y*y, y > 0; log x is 2 log y from here on
bool is_symbolic();
double not_a_number();                                    // what isnan recognises; only to be stored and passed on
// value of an arbitrary function of the arguments (what a contract leaves open)
double any_fn(const std::string &name, const std::vector<double> &args);
template <class A, class B> void eqm(const A &a, const B &b, const std::string &name) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) { ensure(false, name + ": shape"); return; }
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++)
    eq(a(i, j), b(i, j), name + "[" + std::to_string(i) + (a.cols() > 1 ? "," + std::to_string(j) : std::string()) + "]");
}
inline std::string S(int i) { return std::to_string(i); }
inline std::string S(const char *p, int i) { return p + std::to_string(i); }
inline std::string S(const std::string &p, int i) { return p + std::to_string(i); }

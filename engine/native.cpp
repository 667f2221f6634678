// Native side of the harness: the real code with machine doubles.
#include "h.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <set>
#include <exception>
#include <chrono>
std::vector<UnitReg *> &all_units() { static std::vector<UnitReg *> v; return v; }
UnitReg::UnitReg(const char *n, const char *f, void (*g)()) : name(n), fns(f), fn(g) { order = all_units().size(); all_units().push_back(this); }
static std::map<std::string, double> vals; static bool have_vals; static unsigned long rs = 88172645463325252ul;
static std::map<std::string, double> drawn; static double fd_h = 0;
static double u01() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (double)(rs >> 40) / (1 << 24); }
struct PreFalse {};
static double get(const std::string &n, double dflt) { auto it = drawn.find(n); if (it != drawn.end()) return it->second; double v = dflt; if (have_vals) { auto j = vals.find(n); if (j != vals.end()) v = j->second; } drawn[n] = v; return v; }
double in_pos(const std::string &n) { double d = 0.25 + 2 * u01(); return get(n, d); }
double in_any(const std::string &n) { double d = -1.75 + 3.5 * u01(); return get(n, d); }
double in_range(const std::string &n, double lo, double hi) { double d = lo + (hi - lo) * (0.001 + 0.998 * u01()); return get(n, d); }
void assume(bool c) { if (!c) throw PreFalse{}; }
void req_gt(const double &a, const double &b) { assume(a > b); }
void req_ge(const double &a, const double &b) { assume(a >= b - 1e-12 * std::fabs(b)); }
void req_eq(const double &a, const double &b) { assume(std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-12); }
void req_ne(const double &a, const double &b) { assume(a != b); }
void req_finite(const double &a) { assume(std::isfinite(a)); }
static std::vector<std::string> fails; static std::string want; static double want_diff = -1; static long nchk; static std::set<std::string> names;
static void fail(const std::string &n, double a, double b) { char t[200]; snprintf(t, 200, "%s: %.17g vs %.17g", n.c_str(), a, b); fails.push_back(t); names.insert(n); }
void eq(const double &a, const double &b, const std::string &n) { nchk++; if (std::isnan(a) && std::isnan(b)) return; double d = std::fabs(a - b);
  if (n == want) { double tol = 0.4 * want_diff; double noise = 1e-13 * (std::fabs(a) + std::fabs(b)); if (!(d <= std::max(tol, noise))) fail(n, a, b); return; }
  if (!(d <= 2e-5 * (std::fabs(a) + std::fabs(b)) + 1e-6)) fail(n, a, b); }
void ge(const double &a, const double &b, const std::string &n) { nchk++; if (!(a >= b - 1e-9 * (std::fabs(a) + std::fabs(b)) - 1e-12)) fail(n, a, b); }
void gt(const double &a, const double &b, const std::string &n) { nchk++; if (!(a > b)) fail(n, a, b); }
void ne(const double &a, const double &b, const std::string &n) { nchk++; if (!(a != b)) fail(n, a, b); }
void ensure(bool c, const std::string &n) { nchk++; if (!c) fail(n, 0, 1); }
void square_of(const double &x, const double &y) { eq(x, y * y, "lemma: a square"); gt(y, 0, "lemma: a positive root"); }
void defined(const double &a, const std::string &n) { nchk++; if (std::isnan(a) || std::fabs(a) > 1e250) fail(n, a, 0); }
double deriv(const std::function<double(double)> &f, double x) { double h = 1e-3 * (1 + std::fabs(x)); auto D = [&](double h) { return (f(x + h) - f(x - h)) / (2 * h); }; double a = D(h), b = D(h / 2), c = D(h / 4); double r1 = (4 * b - a) / 3, r2 = (4 * c - b) / 3; return (16 * r2 - r1) / 15; }
std::vector<Reals> jac(const std::function<Reals(Reals)> &f, const Reals &x) {
  Reals y = f(x); std::vector<Reals> J(y.size(), Reals(x.size()));
  for (size_t j = 0; j < x.size(); j++) { double h = 1e-3 * (1 + std::fabs(x[j])); auto D = [&](double h) { Reals a = x, b = x; a[j] += h; b[j] -= h; Reals fa = f(a), fb = f(b); for (size_t i = 0; i < fa.size(); i++) fa[i] = (fa[i] - fb[i]) / (2 * h); return fa; };
    Reals a = D(h), b = D(h / 2), c = D(h / 4); for (size_t i = 0; i < y.size(); i++) { double r1 = (4 * b[i] - a[i]) / 3, r2 = (4 * c[i] - b[i]) / 3; J[i][j] = (16 * r2 - r1) / 15; } }
  return J;
}
double any_fn(const std::string &name, const std::vector<double> &args) { // the same function the verifier's sample points use
  unsigned long h = 1469598103934665603ul; for (char c : name) h = (h ^ (unsigned char)c) * 1099511628211ul; double s = (double)(h % 1000003) / 1000003, lin = 0;
  for (double a : args) { h = h * 6364136223846793005ul + 1442695040888963407ul; lin += (double)(h >> 40) / (double)(1 << 24) * a; }
  return 1.5 + std::sin(s * 7 + lin * 1.25);
}
bool is_symbolic() { return false; }
double not_a_number() { return std::nan(""); }
struct SeAssert { std::string w; };
extern "C++" void se_native_assert(const char *w) { throw SeAssert{w}; }
// --unit U --vals file [--want name --diff d]   : replay one input
// --unit U --random n                           : fallback, random inputs
int main(int argc, char **argv) {
  std::string unit, vf; long nr = 0; bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--list") list = true; else if (a == "--unit") unit = argv[++i]; else if (a == "--vals") vf = argv[++i]; else if (a == "--want") want = argv[++i]; else if (a == "--diff") want_diff = atof(argv[++i]); else if (a == "--random") nr = atol(argv[++i]); else if (a == "--seed") rs ^= strtoul(argv[++i], 0, 10) * 0x9E3779B97F4A7C15ul; }
  if (list) { for (auto u : all_units()) printf("%s\n", u->name); return 0; }
  if (!vf.empty()) { std::ifstream f(vf); std::string l; have_vals = true; while (std::getline(f, l)) { size_t p = l.rfind('='); if (p != std::string::npos) vals[l.substr(0, p)] = atof(l.c_str() + p + 1); } nr = 1; }
  auto T0 = std::chrono::steady_clock::now(); long ran = 0, pre = 0; bool rnd = vf.empty(); std::map<std::string, long> cnt; std::map<std::string, std::string> first; std::map<std::string, double> fdrawn;
  for (auto u : all_units()) if (unit == u->name)
    for (long k = 0; k < nr; k++) { if (k && std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > 15) break; drawn.clear(); fails.clear(); names.clear();
      try { u->fn(); ran++; } catch (PreFalse &) { pre++; fails.clear(); names.clear(); }
      catch (SeAssert &e) { fails.push_back("assertion failed: " + e.w); names.insert(rnd ? "assertion" : want); }
      catch (const char *e) { fails.push_back(std::string("exception: ") + e); names.insert(rnd ? "exception" : want); }
      catch (std::exception &e) { fails.push_back(std::string("exception: ") + e.what()); names.insert(rnd ? "exception" : want); }
      if (!fails.empty() && fdrawn.empty()) fdrawn = drawn;
      for (auto &n : names) cnt[n]++; for (auto &f : fails) { std::string n = f.substr(0, f.rfind(": ")); if (!first.count(n)) first[n] = f; } }
  // on random inputs a failure has to repeat: single ones are rounding near a pole
  if (rnd) { fails.clear(); for (auto &c : cnt) if ((c.second > 2 || c.second >= ran) && c.second * 33 > ran) fails.push_back(first.count(c.first) ? first[c.first] : c.first); }
  drawn = fdrawn;
  printf("ran %ld pre_false %ld checks %ld fails %zu\n", ran, pre, nchk, fails.size());
  for (auto &f : fails) printf("FAIL %s\n", f.c_str());
  if (!fails.empty()) for (auto &d : drawn) printf("INPUT %s=%.17g\n", d.first.c_str(), d.second);
  if (fails.empty()) return 0;
  if (!want.empty() && !names.count(want)) return 3;
  return 1;
}

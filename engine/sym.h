// Symbolic real scalar used to execute the real sources of /repo over all reals.
// A Sym is a handle on a hash-consed term.  Nothing here knows anything about the
// code under verification.
#pragma once
#include <cstdint>
#include <cmath>
#include <complex>
#include <limits>
#include <string>
#include <vector>
#include <functional>
#include <ostream>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <tuple>
#include <numeric>
#include <utility>
#include <memory>
#include <random>
#include <stdexcept>
#include <iterator>
#include <type_traits>
#include <deque>
#include <list>
#include <queue>
#include <unordered_map>
#include <unordered_set>
#include <iomanip>
#include <fstream>
#include <chrono>
#include <thread>
#include <mutex>
#include <cassert>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cfloat>
#include <climits>
#include <optional>
#include <string_view>
#include <variant>
#include <any>
#include <bitset>
#include <stack>
#include <valarray>
#include <complex.h>
#undef I
#include <math.h>

typedef double real_double;

namespace se {
enum Op : uint8_t { POISON, CONST, VAR, ADD, MUL, DIV, POW, EXP, LOG, SIN, COS, TAN, ATAN, ASIN, ACOS, ATAN2, TANH, SINH, COSH, UF, FLOOR };
struct KillPath {};            // this path ends here (assumption false)
struct Unsupported { std::string what; };
}

class Sym {
public:
  uint32_t id;
  Sym() : id(0) {}
  Sym(int v);
  Sym(unsigned v);
  Sym(long v);
  Sym(unsigned long v);
  Sym(long long v);
  Sym(real_double v);
  Sym(float v) : Sym((real_double)v) {}
  Sym(bool v) : Sym((int)v) {}
  static Sym raw(uint32_t i) { Sym s; s.id = i; return s; }
  Sym &operator+=(const Sym &o);
  Sym &operator-=(const Sym &o);
  Sym &operator*=(const Sym &o);
  Sym &operator/=(const Sym &o);
  Sym &operator++();
  Sym &operator--();
  Sym operator-() const;
  Sym operator+() const { return *this; }
  explicit operator int() const;
  explicit operator long() const;
  explicit operator unsigned long() const;
  explicit operator bool() const;
  explicit operator real_double() const; // constants only
};
Sym operator+(const Sym &, const Sym &);
Sym operator-(const Sym &, const Sym &);
Sym operator*(const Sym &, const Sym &);
Sym operator/(const Sym &, const Sym &);
bool operator<(const Sym &, const Sym &);
bool operator>(const Sym &, const Sym &);
bool operator<=(const Sym &, const Sym &);
bool operator>=(const Sym &, const Sym &);
bool operator==(const Sym &, const Sym &);
bool operator!=(const Sym &, const Sym &);
#define SE_MIXED(T)                                                            \
  inline Sym operator+(const Sym &a, T b) { return a + Sym(b); }               \
  inline Sym operator-(const Sym &a, T b) { return a - Sym(b); }               \
  inline Sym operator*(const Sym &a, T b) { return a * Sym(b); }               \
  inline Sym operator/(const Sym &a, T b) { return a / Sym(b); }               \
  inline Sym operator+(T a, const Sym &b) { return Sym(a) + b; }               \
  inline Sym operator-(T a, const Sym &b) { return Sym(a) - b; }               \
  inline Sym operator*(T a, const Sym &b) { return Sym(a) * b; }               \
  inline Sym operator/(T a, const Sym &b) { return Sym(a) / b; }               \
  inline bool operator<(const Sym &a, T b) { return a < Sym(b); }              \
  inline bool operator>(const Sym &a, T b) { return a > Sym(b); }              \
  inline bool operator<=(const Sym &a, T b) { return a <= Sym(b); }            \
  inline bool operator>=(const Sym &a, T b) { return a >= Sym(b); }            \
  inline bool operator==(const Sym &a, T b) { return a == Sym(b); }            \
  inline bool operator!=(const Sym &a, T b) { return a != Sym(b); }            \
  inline bool operator<(T a, const Sym &b) { return Sym(a) < b; }              \
  inline bool operator>(T a, const Sym &b) { return Sym(a) > b; }              \
  inline bool operator<=(T a, const Sym &b) { return Sym(a) <= b; }            \
  inline bool operator>=(T a, const Sym &b) { return Sym(a) >= b; }            \
  inline bool operator==(T a, const Sym &b) { return Sym(a) == b; }            \
  inline bool operator!=(T a, const Sym &b) { return Sym(a) != b; }
SE_MIXED(real_double)
SE_MIXED(int)
SE_MIXED(long)
SE_MIXED(unsigned)
SE_MIXED(unsigned long)
std::ostream &operator<<(std::ostream &, const Sym &);

Sym sqrt(const Sym &);
Sym cbrt(const Sym &);
Sym exp(const Sym &);
Sym log(const Sym &);
Sym sin(const Sym &);
Sym cos(const Sym &);
Sym tan(const Sym &);
Sym atan(const Sym &);
Sym asin(const Sym &);
Sym acos(const Sym &);
Sym atan2(const Sym &, const Sym &);
Sym tanh(const Sym &);
Sym sinh(const Sym &);
Sym cosh(const Sym &);
Sym pow(const Sym &, const Sym &);
inline Sym pow(const Sym &a, int b) { return pow(a, Sym(b)); }
inline Sym pow(const Sym &a, real_double b) { return pow(a, Sym(b)); }
inline Sym pow(real_double a, const Sym &b) { return pow(Sym(a), b); }
inline Sym pow(int a, const Sym &b) { return pow(Sym(a), b); }
Sym floor(const Sym &);
Sym ceil(const Sym &);
Sym abs(const Sym &);
inline Sym fabs(const Sym &a) { return abs(a); }
inline Sym abs2(const Sym &a) { return a * a; }
inline Sym exp2(const Sym &a) { return pow(Sym(2), a); }
inline Sym log10(const Sym &a) { return log(a) / log(Sym(10)); }
inline Sym log1p(const Sym &a) { return log(Sym(1) + a); }
inline Sym expm1(const Sym &a) { return exp(a) - Sym(1); }
inline Sym hypot(const Sym &a, const Sym &b) { return sqrt(a * a + b * b); }
inline Sym fmax(const Sym &a, const Sym &b) { return a < b ? b : a; }
inline Sym fmin(const Sym &a, const Sym &b) { return b < a ? b : a; }
inline Sym fma(const Sym &a, const Sym &b, const Sym &c) { return a * b + c; }
inline Sym copysign(const Sym &a, const Sym &b) { Sym m = abs(a); return b < Sym(0) ? -m : m; }
inline Sym trunc(const Sym &a) { return a < Sym(0) ? ceil(a) : floor(a); }
bool sym_isnan(const Sym &); // only the value not_a_number() of the harness
inline bool (isnan)(const Sym &a) { return sym_isnan(a); }
inline bool (isinf)(const Sym &) { return false; }
inline bool (isfinite)(const Sym &) { return true; }
inline bool signbit(const Sym &a) { return a < Sym(0); }
inline Sym real(const Sym &a) { return a; }
inline Sym imag(const Sym &) { return Sym(0); }
inline Sym conj(const Sym &a) { return a; }

namespace std {
using ::sqrt; using ::cbrt; using ::exp; using ::log; using ::sin; using ::cos; using ::tan;
using ::atan; using ::asin; using ::acos; using ::atan2; using ::tanh; using ::sinh; using ::cosh;
using ::pow; using ::floor; using ::ceil; using ::abs; using ::fabs; using ::hypot; using ::fmax; using ::fmin; using ::fma;
using ::log10; using ::log1p; using ::expm1; using ::exp2; using ::copysign; using ::trunc;
using ::isnan; using ::isinf; using ::isfinite; using ::signbit;
inline Sym max(const Sym &a, real_double b) { return a < Sym(b) ? Sym(b) : a; }
inline Sym max(real_double a, const Sym &b) { return Sym(a) < b ? b : Sym(a); }
inline Sym min(const Sym &a, real_double b) { return Sym(b) < a ? Sym(b) : a; }
inline Sym min(real_double a, const Sym &b) { return b < Sym(a) ? b : Sym(a); }
template <> class numeric_limits<Sym> {
public:
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
    has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024,
    min_exponent10 = -307, max_exponent10 = 308;
  static Sym min() { return Sym(DBL_MIN); }
  static Sym max() { return Sym(DBL_MAX); }
  static Sym lowest() { return Sym(-DBL_MAX); }
  static Sym epsilon() { return Sym(DBL_EPSILON); }
  static Sym infinity() { return Sym(DBL_MAX); }
  static Sym quiet_NaN();
  static Sym round_error() { return Sym(0.5); }
};
// std::complex over an unspecified scalar: spelled out so that it is well defined.
template <> class complex<Sym> {
  Sym r, i;
public:
  typedef Sym value_type;
  complex() : r(0), i(0) {}
  complex(const Sym &a) : r(a), i(0) {}
  complex(const Sym &a, const Sym &b) : r(a), i(b) {}
  complex(int a) : r(a), i(0) {}
  complex(real_double a) : r(a), i(0) {}
  const Sym &real() const { return r; }
  const Sym &imag() const { return i; }
  void real(const Sym &a) { r = a; }
  void imag(const Sym &a) { i = a; }
  complex &operator+=(const complex &o) { r += o.r; i += o.i; return *this; }
  complex &operator-=(const complex &o) { r -= o.r; i -= o.i; return *this; }
  complex &operator*=(const complex &o) { Sym a = r * o.r - i * o.i, b = r * o.i + i * o.r; r = a; i = b; return *this; }
  complex &operator/=(const complex &o) {
    Sym d = o.r * o.r + o.i * o.i; Sym a = (r * o.r + i * o.i) / d, b = (i * o.r - r * o.i) / d; r = a; i = b; return *this; }
  complex &operator*=(const Sym &o) { r *= o; i *= o; return *this; }
  complex &operator/=(const Sym &o) { r /= o; i /= o; return *this; }
};
}
typedef std::complex<Sym> CSym;
inline CSym operator+(CSym a, const CSym &b) { return a += b; }
inline CSym operator-(CSym a, const CSym &b) { return a -= b; }
inline CSym operator*(CSym a, const CSym &b) { return a *= b; }
inline CSym operator/(CSym a, const CSym &b) { return a /= b; }
inline CSym operator-(const CSym &a) { return CSym(-a.real(), -a.imag()); }
inline CSym operator*(CSym a, const Sym &b) { return a *= b; }
inline CSym operator*(const Sym &b, CSym a) { return a *= b; }
inline bool operator==(const CSym &a, const CSym &b) { return a.real() == b.real() && a.imag() == b.imag(); }
inline bool operator!=(const CSym &a, const CSym &b) { return !(a == b); }
inline Sym real(const CSym &a) { return a.real(); }
inline Sym imag(const CSym &a) { return a.imag(); }
inline CSym conj(const CSym &a) { return CSym(a.real(), -a.imag()); }
Sym abs(const CSym &a);
inline Sym abs2(const CSym &a) { return a.real() * a.real() + a.imag() * a.imag(); }
inline bool (isnan)(const CSym &) { return false; }
namespace std {
using ::real; using ::imag; using ::conj;
inline Sym norm(const CSym &a) { return ::abs2(a); }
using ::abs;
}

// ---- engine API -----------------------------------------------------------
namespace se {
uint32_t mk(Op op, uint32_t a, uint32_t b = 0);
Sym var(const std::string &name, int dom, real_double lo, real_double hi);
Sym uf(const std::string &name, const std::vector<Sym> &args);
Sym diff(const Sym &e, const Sym &v);
bool same_nf(const Sym &a, const Sym &b);
bool is_const(const Sym &a, real_double *v = nullptr);
std::string show(const Sym &a, int depth = 6);
}

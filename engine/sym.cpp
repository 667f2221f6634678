// Term graph, path exploration, normal form, numeric refutation, SMT back end.
#include "h.h"
#include "core.h"
#undef double
#include <gmpxx.h>
#include <quadmath.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
using std::string; using std::vector;
namespace se {
// ------------------------------------------------------------------ terms
struct Node { Op op; uint32_t a, b; };
static vector<Node> N_;                     // id -> node
static vector<mpq_class> CV;                // constants
struct VarInfo { string name; int dom; real_double lo, hi; };
static vector<VarInfo> VI;
struct UfInfo { string name; vector<uint32_t> args; };
static vector<UfInfo> UI;
struct NKey { uint8_t op; uint32_t a, b; bool operator==(const NKey &o) const { return op == o.op && a == o.a && b == o.b; } };
struct NH { size_t operator()(const NKey &k) const { return (k.op * 1000003ull + k.a) * 0x9E3779B97F4A7C15ull ^ (k.b * 0xC2B2AE3D27D4EB4Full); } };
static std::unordered_map<NKey, uint32_t, NH> &HC() { static std::unordered_map<NKey, uint32_t, NH> h; return h; }
static std::map<mpq_class, uint32_t> &CM() { static std::map<mpq_class, uint32_t> m; return m; }
static std::map<string, uint32_t> &VM() { static std::map<string, uint32_t> m; return m; }
static std::map<std::pair<string, vector<uint32_t>>, uint32_t> &UM() { static std::map<std::pair<string, vector<uint32_t>>, uint32_t> m; return m; }

static void init() { if (N_.empty()) { N_.reserve(1 << 20); N_.push_back({POISON, 0, 0}); } }
static uint32_t raw(Op op, uint32_t a, uint32_t b) {
  init();
  NKey k{op, a, b};
  auto it = HC().find(k);
  if (it != HC().end()) return it->second;
  uint32_t id = N_.size(); N_.push_back({op, a, b}); HC().emplace(k, id); return id;
}
uint32_t mkc(const mpq_class &q) {
  init();
  auto it = CM().find(q);
  if (it != CM().end()) return it->second;
  uint32_t i = CV.size(); CV.push_back(q);
  uint32_t id = raw(CONST, i, 0); CM()[q] = id; return id;
}
static bool isc(uint32_t i) { return N_[i].op == CONST; }
static const mpq_class &cv(uint32_t i) { return CV[N_[i].a]; }
static bool is0(uint32_t i) { return isc(i) && sgn(cv(i)) == 0; }
static bool is1(uint32_t i) { return isc(i) && cv(i) == 1; }
static mpq_class qpow(const mpq_class &b, long e) {
  mpq_class r = 1, x = e < 0 ? mpq_class(1 / b) : b; unsigned long n = e < 0 ? -e : e;
  while (n) { if (n & 1) r *= x; x *= x; n >>= 1; } return r;
}
uint32_t mk(Op op, uint32_t a, uint32_t b) {
  init();
  if (op != VAR && op != UF && op != CONST) {
    if (a == 0 || ((op == ADD || op == MUL || op == DIV || op == POW || op == ATAN2) && b == 0)) return 0;
  }
  switch (op) {
  case ADD:
    if (isc(a) && isc(b)) return mkc(cv(a) + cv(b));
    if (is0(a)) return b;
    if (is0(b)) return a;
    // x + (-1)*x
    { auto neg = [&](uint32_t x, uint32_t y) { return N_[y].op == MUL && isc(N_[y].a) && cv(N_[y].a) == -1 && N_[y].b == x; };
      if (neg(a, b) || neg(b, a)) return mkc(0); }
    if (a > b) std::swap(a, b);
    return raw(ADD, a, b);
  case MUL:
    if (isc(a) && isc(b)) return mkc(cv(a) * cv(b));
    if (is0(a) || is0(b)) return mkc(0);
    if (is1(a)) return b;
    if (is1(b)) return a;
    if (isc(b)) std::swap(a, b);
    if (!isc(a) && a > b) std::swap(a, b);
    if (isc(a) && N_[b].op == MUL && isc(N_[b].a)) return mk(MUL, mkc(cv(a) * cv(N_[b].a)), N_[b].b);
    return raw(MUL, a, b);
  case DIV:
    if (isc(b)) { if (sgn(cv(b)) == 0) return is0(a) ? raw(DIV, a, b) : raw(DIV, a, b); return mk(MUL, mkc(1 / cv(b)), a); }
    if (is0(a)) return a;
    if (a == b) return mkc(1);
    return raw(DIV, a, b);
  case POW:
    if (isc(b)) {
      if (sgn(cv(b)) == 0) return mkc(1);
      if (cv(b) == 1) return a;
      if (isc(a) && cv(b).get_den() == 1 && (sgn(cv(a)) != 0 || sgn(cv(b)) > 0) && abs(cv(b)) < 4096) return mkc(qpow(cv(a), cv(b).get_num().get_si()));
      if (isc(a) && sgn(cv(a)) == 0) return a;
      if (cv(b) == 2) return mk(MUL, a, a);
    }
    if (is1(a)) return a;
    return raw(POW, a, b);
  case EXP: if (is0(a)) return mkc(1); return raw(op, a, 0);
  case LOG: if (is1(a)) return mkc(0); return raw(op, a, 0);
  case SIN: case TAN: case ATAN: case ASIN: case TANH: case SINH: if (is0(a)) return a; return raw(op, a, 0);
  case COS: case COSH: if (is0(a)) return mkc(1); return raw(op, a, 0);
  case FLOOR: if (isc(a)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), cv(a).get_num_mpz_t(), cv(a).get_den_mpz_t()); return mkc(mpq_class(z)); } return raw(op, a, 0);
  default: return raw(op, a, b);
  }
}
// a literal of the program, read as the real number its author meant
mpq_class rationalise(real_double x) {
  if (x != x) return 0;
  if (std::isinf(x)) x = x > 0 ? DBL_MAX : -DBL_MAX;
  if (x == std::floor(x) && std::fabs(x) < 1e15) return mpq_class((long)x);
  char buf[64];
  auto dec = [&](int p) -> mpq_class {
    snprintf(buf, 64, "%.*e", p - 1, x);
    string s = buf; size_t e = s.find('e'); long ex = atol(s.c_str() + e + 1); string m = s.substr(0, e);
    bool neg = m[0] == '-'; if (neg) m = m.substr(1);
    size_t d = m.find('.'); long fd = 0; if (d != string::npos) { fd = m.size() - d - 1; m.erase(d, 1); }
    mpz_class z(m, 10); mpq_class q(z); long k = ex - fd; mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, k < 0 ? -k : k);
    if (k < 0) q /= t; else q *= t; q.canonicalize(); return neg ? mpq_class(-q) : q;
  };
  for (int p = 1; p <= 11; p++) { mpq_class q = dec(p); if (strtod(buf, 0) == x) return q; }
  { // simplest fraction rounding to x
    real_double y = std::fabs(x); long p0 = 0, q0 = 1, p1 = 1, q1 = 0; real_double r = y;
    for (int i = 0; i < 12; i++) { real_double f = std::floor(r); if (f > 1e8) break; long p2 = (long)f * p1 + p0, q2 = (long)f * q1 + q0; p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      if (q1 > 20000) break; if (q1 && std::fabs((real_double)p1 / q1 - y) <= 4e-16 * y) { mpq_class q(p1, q1); q.canonicalize(); return x < 0 ? mpq_class(-q) : q; }
      real_double fr = r - f; if (fr < 1e-13) break; r = 1 / fr; }
  }
  for (int p = 12; p <= 17; p++) { mpq_class q = dec(p); if (strtod(buf, 0) == x) return q; }
  return mpq_class(x);
}
Sym var(const string &name, int dom, real_double lo, real_double hi) {
  auto it = VM().find(name);
  if (it != VM().end()) return Sym::raw(it->second);
  uint32_t i = VI.size(); VI.push_back({name, dom, lo, hi});
  uint32_t id = raw(VAR, i, 0); VM()[name] = id; return Sym::raw(id);
}
Sym uf(const string &name, const vector<Sym> &args) {
  init();
  vector<uint32_t> a; for (auto &s : args) a.push_back(s.id);
  auto k = std::make_pair(name, a); auto it = UM().find(k);
  if (it != UM().end()) return Sym::raw(it->second);
  uint32_t i = UI.size(); UI.push_back({name, a});
  uint32_t id = raw(UF, i, 0); UM()[k] = id; return Sym::raw(id);
}
bool is_const(const Sym &a, real_double *v) { if (!isc(a.id)) return false; if (v) *v = cv(a.id).get_d(); return true; }
static const char *opn[] = {"poison","const","var","+","*","/","pow","exp","log","sin","cos","tan","atan","asin","acos","atan2","tanh","sinh","cosh","uf","floor"};
static string showi(uint32_t i, int depth) {
  const Node &n = N_[i];
  if (n.op == POISON) return "UNINITIALISED";
  if (n.op == CONST) { std::ostringstream o; o << cv(i); string s = o.str(); if (s.size() > 20) { o.str(""); o << cv(i).get_d(); s = o.str(); } return s; }
  if (n.op == VAR) return VI[n.a].name;
  if (n.op == UF) { string s = UI[n.a].name; if (depth <= 0) return s + "(..)"; s += "("; int c = 0; for (auto a : UI[n.a].args) { if (c++) s += ","; if (c > 4) { s += ".."; break; } s += showi(a, depth - 1); } return s + ")"; }
  if (depth <= 0) return "..";
  if (n.op == ADD || n.op == MUL || n.op == DIV) return "(" + showi(n.a, depth - 1) + opn[n.op] + showi(n.b, depth - 1) + ")";
  string s = string(opn[n.op]) + "(" + showi(n.a, depth - 1);
  if (n.op == POW || n.op == ATAN2) s += "," + showi(n.b, depth - 1);
  return s + ")";
}
string show(const Sym &a, int depth) { return showi(a.id, depth); }

// ------------------------------------------------------------------ path state
static vector<char> prefix_; static size_t ppos;
static long forks_total;
struct Lit { uint32_t d; int mask; };     // sign(d) in mask: 1 neg, 2 zero, 4 pos
static vector<Lit> pc;
static std::unordered_map<uint32_t, int> kmask;            // node -> known sign mask (path)
static std::map<string, int> pmask;                         // canonical poly -> mask (path)
static std::map<uint32_t, uint32_t> subst;                  // var node -> defining term (path)
static vector<Obl> obls;
static std::vector<char> *taken;
static bool in_unit = false;
int max_depth = 60;
bool truncated = false;
static std::unordered_map<uint32_t, int> &smemo() { static std::unordered_map<uint32_t, int> m; return m; }
static std::set<string> notes_;
void note(const string &s) { notes_.insert(s); }

static const mpq_class HUGE_Q = [] { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, 300); return mpq_class(z); }();
static int sadd(int a, int b) { if (a == 2) return b; if (b == 2) return a; if (!(a & 1) && !(b & 1)) return (a == 4 || b == 4) ? 4 : 6; if (!(a & 4) && !(b & 4)) return (a == 1 || b == 1) ? 1 : 3; return 7; }
static int smul(int a, int b) { int r = 0; for (int i = 0; i < 3; i++) if (a >> i & 1) for (int j = 0; j < 3; j++) if (b >> j & 1) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); } return r; }
static int csign(const mpq_class &q) { int s = sgn(q); return s < 0 ? 1 : s ? 4 : 2; }
// affine expressions in one variable: interval of the variable on this path
struct Span { mpq_class lo, hi; bool l = false, h = false, ls = false, hs = false; };
static std::map<uint32_t, Span> spans;
static bool affine1(uint32_t i, uint32_t &v, mpq_class &c0, mpq_class &c1, int depth = 0) { // i = c0 + c1 v
  if (depth > 40) return false; const Node n = N_[i];
  switch (n.op) {
  case CONST: c0 = cv(i); c1 = 0; return true;
  case VAR: if (v && v != i) return false; v = i; c0 = 0; c1 = 1; return true;
  case ADD: { mpq_class a0, a1, b0, b1; if (!affine1(n.a, v, a0, a1, depth + 1) || !affine1(n.b, v, b0, b1, depth + 1)) return false; c0 = a0 + b0; c1 = a1 + b1; return true; }
  case MUL: { mpq_class a0, a1, b0, b1; if (!affine1(n.a, v, a0, a1, depth + 1) || !affine1(n.b, v, b0, b1, depth + 1)) return false; if (sgn(a1) && sgn(b1)) return false; c0 = a0 * b0; c1 = a0 * b1 + a1 * b0; return true; }
  case DIV: { mpq_class a0, a1, b0, b1; if (!affine1(n.a, v, a0, a1, depth + 1) || !affine1(n.b, v, b0, b1, depth + 1)) return false; if (sgn(b1) || !sgn(b0)) return false; c0 = a0 / b0; c1 = a1 / b0; return true; }
  case POW: { if (!isc(n.a) || !isc(n.b) || cv(n.b) != mpq_class(1, 2) || sgn(cv(n.a)) < 0) return false; mpq_class q = cv(n.a); if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false; c0 = mpq_class(sqrt(q.get_num()), sqrt(q.get_den())); c1 = 0; return true; }
  default: return false;
  }
}
static Span &span_of(uint32_t v) {
  auto it = spans.find(v); if (it != spans.end()) return it->second; Span s; auto &V = VI[N_[v].a];
  if (V.dom == 1) { s.l = s.ls = true; s.lo = 0; } else if (V.dom == 2) { s.l = true; s.lo = 0; } else if (V.dom == 3) { s.l = s.h = true; s.lo = mpq_class((double)V.lo); s.hi = mpq_class((double)V.hi); }
  return spans[v] = s;
}
static int span_sign_(uint32_t v, const mpq_class &c0, const mpq_class &c1) {
  Span &s = span_of(v); mpq_class z = -c0 / c1; int m = 0; // v < z, = z, > z
  bool lt = !s.l || s.lo < z, gt = !s.h || s.hi > z, is = (!s.l || s.lo < z || (s.lo == z && !s.ls)) && (!s.h || s.hi > z || (s.hi == z && !s.hs));
  if (lt) m |= sgn(c1) > 0 ? 1 : 4; if (gt) m |= sgn(c1) > 0 ? 4 : 1; if (is) m |= 2; return m ? m : 7;
}
static int span_sign(uint32_t d) { uint32_t v = 0; mpq_class c0, c1; if (!affine1(d, v, c0, c1) || !v || !sgn(c1)) return 7; return span_sign_(v, c0, c1); }
static bool nf_affine(uint32_t d, uint32_t &v, mpq_class &c0, mpq_class &c1);
static void span_learn(uint32_t d, int mask) {
  uint32_t v = 0; mpq_class c0, c1; if (!affine1(d, v, c0, c1) || !v || !sgn(c1)) { v = 0; if (!nf_affine(d, v, c0, c1)) return; } Span &s = span_of(v); mpq_class z = -c0 / c1; if (sgn(c1) < 0) mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2);
  if (!(mask & 1)) { bool st = !(mask & 2); if (!s.l || z > s.lo) { s.l = true; s.lo = z; s.ls = st; } else if (z == s.lo) s.ls |= st; }
  if (!(mask & 4)) { bool st = !(mask & 2); if (!s.h || z < s.hi) { s.h = true; s.hi = z; s.hs = st; } else if (z == s.hi) s.hs |= st; }
}
int signs(uint32_t i) {
  auto kt = kmask.find(i); 
  auto it = smemo().find(i);
  int r;
  if (it != smemo().end()) r = it->second;
  else {
    const Node n = N_[i];
    switch (n.op) {
    case CONST: r = csign(cv(i)); break;
    case VAR: { auto &v = VI[n.a]; r = v.dom == 1 ? 4 : v.dom == 2 ? 6 : v.dom == 3 ? (v.lo > 0 ? 4 : v.lo >= 0 ? 6 : v.hi < 0 ? 1 : v.hi <= 0 ? 3 : 7) : 7; break; }
    case ADD: r = sadd(signs(n.a), signs(n.b)); if ((r & (r - 1)) && span_sign(i)) r &= span_sign(i); if (!r) r = 7; if ((r & (r - 1))) { // finite values lie below the largest machine number
      uint32_t c = isc(n.a) ? n.a : isc(n.b) ? n.b : 0; if (c && abs(cv(c)) > HUGE_Q) r = csign(cv(c)); } break;
    case MUL: if (n.a == n.b) { int s = signs(n.a); r = (s & 2) ? (s == 2 ? 2 : 6) : 4; } else r = smul(signs(n.a), signs(n.b)); break;
    case DIV: { int s = signs(n.b) & 5; r = smul(signs(n.a), s ? s : 5); break; }
    case POW: { int s = signs(n.a);
      if (isc(n.b) && cv(n.b).get_den() == 1) { bool even = mpz_even_p(cv(n.b).get_num_mpz_t()); if (even) r = (s & 2) ? 6 : 4; else r = s; if (sgn(cv(n.b)) < 0) r &= 5; }
      else { r = (s & 2) ? 6 : 4; 
        // sqrt of a square of something non zero etc. handled by its base
      } break; }
    case EXP: case COSH: r = 4; break;
    case TANH: case SINH: case ATAN: case ASIN: r = signs(n.a); break;
    default: r = 7;
    }
    smemo()[i] = r;
  }
  if (kt != kmask.end()) r &= kt->second;
  return r ? r : 7;
}
#include "nf.inc"
// the normal form is a positive monomial times an affine form in one variable
static bool nf_affine(uint32_t d, uint32_t &v, mpq_class &c0, mpq_class &c1) {
  if (dagsize(d, 800) >= 800) return false; long lim = term_limit, ops = term_ops; term_limit = term_ops + 50000; bool ok = false;
  try { Poly p = nf(d); if (p.size() && p.size() < 200) { Mono c; mpq_class k; Poly prim; content(p, c, k, prim); ok = prim.size() == 1 || prim.size() == 2; for (auto &q : c) if (atom_sign(q.first) != 4) ok = false; c0 = c1 = 0;
    if (ok) for (auto &t : prim) { const Mono &m = MT_[t.first]; if (m.empty()) c0 = t.second; else if (m.size() == 1 && m[0].second == 1 && AT[m[0].first].k == A_VAR && !v) { v = AT[m[0].first].x; c1 = t.second; } else ok = false; } if (!v || !sgn(c1)) ok = false; } } catch (Budget &) { ok = false; } catch (Unsupported &) { ok = false; }
  term_limit = lim; term_ops = ops; return ok;
}

[[noreturn]] void assert_fail(const char *what, const char *file, int line) {
  string f = file; size_t p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1);
  throw AssertFail{string(what) + " at " + f + ":" + std::to_string(line)};
}
static void learn(uint32_t d, int mask, const string &key, int sgnkey) {
  pc.push_back({d, mask}); span_learn(d, mask);
  auto it = kmask.find(d); kmask[d] = it == kmask.end() ? mask : (it->second & mask);
  smemo().clear();
  if (!key.empty()) { int m = sgnkey > 0 ? mask : ((mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)); auto jt = pmask.find(key); pmask[key] = jt == pmask.end() ? m : (jt->second & m); }
  if (mask == 2) try_subst(d);
}
static int hidden_const(uint32_t d);
static bool decide(uint32_t d, int rel, const char *) {
  if (d == 0) { throw PoisonUse{}; }
  if (!in_unit) { // static initialisation: everything must be constant
    int m = const_sign(d); if (!m) throw Unsupported{"symbolic branch outside a unit"}; return m & rel; }
  int known = signs(d);
  string key; int sk = 1;
  if ((known & rel) == known) return true;
  if (!(known & rel)) return false;
  int cs = const_sign(d);
  if (cs) return cs & rel;
  canon_key(d, key, sk);
  if (!key.empty()) {
    if (key == "0") return 2 & rel;
    auto it = pmask.find(key);
    if (it != pmask.end()) { int m = it->second; if (sk < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); known &= m; }
    if ((known & rel) == known) return true;
    if (!(known & rel)) return false;
  }
  if (int c = hidden_const(d)) return c & rel;
  { uint32_t v = 0; mpq_class c0, c1; if (nf_affine(d, v, c0, c1)) known &= span_sign_(v, c0, c1); if (!known) throw KillPath{}; }
  if ((known & rel) == known) return true;
  if (!(known & rel)) return false;
  bool b;
  if (ppos < prefix_.size()) b = prefix_[ppos];
  else { if ((int)prefix_.size() >= max_depth) { truncated = true; throw KillPath{}; } b = true; prefix_.push_back(1); forks_total++; }
  ppos++;
  learn(d, b ? (known & rel) : (known & ~rel), key, sk);
  return b;
}
void assume_sign(const Sym &d, int mask) {
  if (d.id == 0) throw PoisonUse{};
  int s = signs(d.id);
  if (!(s & mask)) throw KillPath{};
  int cs = const_sign(d.id); if (cs) { if (!(cs & mask)) throw KillPath{}; return; }
  string key; int sk = 1; canon_key(d.id, key, sk);
  if (!key.empty()) { auto it = pmask.find(key); if (it != pmask.end()) { int m = it->second; if (sk < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); if (!(m & mask)) throw KillPath{}; mask &= m; } }
  learn(d.id, s & mask, key, sk);
}
void add_obl(Obl o) { obls.push_back(o); }
uint32_t diff_(uint32_t i, uint32_t v, std::unordered_map<uint32_t, uint32_t> &memo) {
  auto it = memo.find(i); if (it != memo.end()) return it->second;
  const Node n = N_[i]; uint32_t r;
  auto D = [&](uint32_t x) { return diff_(x, v, memo); };
  auto mul = [&](uint32_t x, uint32_t y) { return mk(MUL, x, y); };
  switch (n.op) {
  case POISON: r = 0; break;
  case CONST: r = mkc(0); break;
  case VAR: r = mkc(i == v ? 1 : 0); break;
  case ADD: r = mk(ADD, D(n.a), D(n.b)); break;
  case MUL: r = mk(ADD, mul(D(n.a), n.b), mul(n.a, D(n.b))); break;
  case DIV: r = mk(ADD, mk(DIV, D(n.a), n.b), mul(mkc(-1), mul(mk(DIV, i, n.b), D(n.b)))); break;
  case POW: { uint32_t da = D(n.a), db = D(n.b); uint32_t t1 = mul(mul(n.b, mk(POW, n.a, mk(ADD, n.b, mkc(-1)))), da);
    uint32_t t2 = is0(db) ? mkc(0) : mul(mul(i, mk(LOG, n.a, 0)), db); r = mk(ADD, t1, t2); break; }
  case EXP: r = mul(i, D(n.a)); break;
  case LOG: r = mk(DIV, D(n.a), n.a); break;
  case SIN: r = mul(mk(COS, n.a, 0), D(n.a)); break;
  case COS: r = mul(mkc(-1), mul(mk(SIN, n.a, 0), D(n.a))); break;
  case ATAN: r = mk(DIV, D(n.a), mk(ADD, mkc(1), mul(n.a, n.a))); break;
  case TANH: r = mul(D(n.a), mk(ADD, mkc(1), mul(mkc(-1), mul(i, i)))); break;
  case UF: { r = mkc(0); for (auto a : UI[n.a].args) if (!is0(D(a))) throw Unsupported{"derivative of an abstract function"}; break; }
  default: throw Unsupported{string("derivative of ") + opn[n.op]};
  }
  memo[i] = r; return r;
}
Sym diff(const Sym &e, const Sym &v) { static std::unordered_map<uint32_t, std::unordered_map<uint32_t, uint32_t>> M; return Sym::raw(diff_(e.id, v.id, M[v.id])); }
bool same_nf(const Sym &a, const Sym &b) { Sym d = a - b; string k; int s; if (const_sign(d.id) == 2) return true; canon_key(d.id, k, s); return k == "0"; }

// ------------------------------------------------------------------ linear algebra contracts
static bool nz(const Sym &a) { if (isc(a.id)) return sgn(cv(a.id)) != 0; int m = const_sign(a.id); if (m) return m != 2; return !same_nf(a, Sym(0)); }
struct Sol_ { DM A, b, x; };
static vector<Sol_> sols;
static bool mateq(const DM &A, const DM &B);
void register_solve(const DM &A, const DM &b, const DM &x) { sols.push_back({A, b, x}); }
DM exact_solve(DM A, DM b) {
  int n = A.rows(); for (auto &s : sols) if (mateq(s.A, A) && mateq(s.b, b)) return s.x;
  if (A.cols() != n) assert_fail("square system", "exact_solve", n);
  for (int c = 0; c < n; c++) {
    int p = -1;
    for (int r = c; r < n && p < 0; r++) if (isc(A(r, c).id) && nz(A(r, c))) p = r;
    for (int r = c; r < n && p < 0; r++) if (nz(A(r, c))) p = r;
    if (p < 0) throw AssertFail{"singular matrix passed to a linear solver"};
    if (p != c) { for (int k = 0; k < n; k++) std::swap(A(p, k), A(c, k)); for (int k = 0; k < b.cols(); k++) std::swap(b(p, k), b(c, k)); }
    for (int r = c + 1; r < n; r++) { if (is0(A(r, c).id)) continue; Sym f = simp(A(r, c) / A(c, c)); for (int k = c + 1; k < n; k++) A(r, k) = simp(A(r, k) - f * A(c, k)); A(r, c) = Sym(0); for (int k = 0; k < b.cols(); k++) b(r, k) -= f * b(c, k); }
  }
  DM x(n, b.cols());
  for (int k = 0; k < b.cols(); k++) for (int r = n - 1; r >= 0; r--) { Sym s = b(r, k); for (int j = r + 1; j < n; j++) s -= A(r, j) * x(j, k); x(r, k) = s / A(r, r); }
  return x;
}
static DM minorm(const DM &A, int i, int j) { int n = A.rows(); DM m(n - 1, n - 1); for (int r = 0, a = 0; r < n; r++) if (r != i) { for (int c = 0, b = 0; c < n; c++) if (c != j) m(a, b++) = A(r, c); a++; } return m; }
Sym exact_det(const DM &A) { int n = A.rows(); if (n == 0) return Sym(1); if (n == 1) return A(0, 0); if (n == 2) return A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
  Sym s(0); for (int j = 0; j < n; j++) { if (is0(A(0, j).id)) continue; Sym t = A(0, j) * exact_det(minorm(A, 0, j)); if (j & 1) s -= t; else s += t; } return s; }
DM exact_inverse(const DM &A) {
  int n = A.rows();
  if (n > 4) { DM I = DM::Identity(n, n); return exact_solve(A, I); }
  Sym d = exact_det(A); DM r(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Sym t = exact_det(minorm(A, i, j)); if ((i + j) & 1) t = -t; r(j, i) = t / d; } return r; }
struct Dec_ { DM A, U, V; DV s; };
static vector<Dec_> svds, eigs;
static bool mateq(const DM &A, const DM &B) { if (A.rows() != B.rows() || A.cols() != B.cols()) return false; for (int i = 0; i < A.size(); i++) if (A.data()[i].id != B.data()[i].id) { if (!same_nf(A.data()[i], B.data()[i])) return false; } return true; }
void register_svd(const DM &A, const DM &U, const DV &s, const DM &V) { svds.push_back({A, U, V, s}); }
void register_eig(const DM &A, const DM &R, const DV &l, const DM &L) { eigs.push_back({A, R, L, l}); }
static vector<Sym> flat(const DM &A) { vector<Sym> v; for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) v.push_back(A(i, j)); return v; }
void contract_svd(const DM &A, DM &U, DV &s, DM &V) {
  for (auto &d : svds) if (mateq(d.A, A)) { U = d.U; s = d.s; V = d.V; return; }
  // a multiple of the identity is its own decomposition
  int n = A.rows(); U.resize(n, n); V.resize(n, n); s.resize(n);
  string t = "svd" + std::to_string(svds.size()); vector<Sym> f = flat(A);
  for (int i = 0; i < n; i++) { s(i) = uf(t + "_s" + std::to_string(i), f); assume_sign(s(i), 4); for (int j = 0; j < n; j++) { U(i, j) = uf(t + "_U" + std::to_string(i) + std::to_string(j), f); V(i, j) = uf(t + "_V" + std::to_string(i) + std::to_string(j), f); } }
  svds.push_back({A, U, V, s});
}
void contract_eig(const DM &A, DM &R, DV &l, DM &L) {
  for (auto &d : eigs) if (mateq(d.A, A)) { R = d.U; l = d.s; L = d.V; return; }
  int n = A.rows(); R.resize(n, n); L.resize(n, n); l.resize(n);
  string t = "eig" + std::to_string(eigs.size()); vector<Sym> f = flat(A);
  for (int i = 0; i < n; i++) { l(i) = uf(t + "_l" + std::to_string(i), f); for (int j = 0; j < n; j++) { R(i, j) = uf(t + "_R" + std::to_string(i) + "_" + std::to_string(j), f); L(i, j) = uf(t + "_L" + std::to_string(i) + "_" + std::to_string(j), f); } }
  eigs.push_back({A, R, L, l});
}
void contract_qr(const DM &A, DM &Q, DM &R) {
  int m = A.rows(), n = A.cols(); if (n > m) throw Unsupported{"wide QR"};
  Q.resize(m, m); R.resize(m, n); for (int i = 0; i < R.size(); i++) R.data()[i] = Sym(0);
  for (int j = 0; j < n; j++) {
    DM v = A.col(j);
    for (int k = 0; k < j; k++) { Sym r(0); for (int i = 0; i < m; i++) r += Q(i, k) * A(i, j); R(k, j) = r; for (int i = 0; i < m; i++) v(i) -= r * Q(i, k); }
    Sym nn(0); for (int i = 0; i < m; i++) nn += v(i) * v(i); nn = sqrt(nn); R(j, j) = nn; for (int i = 0; i < m; i++) Q(i, j) = v(i) / nn;
  }
  if (m == n + 1) { DM B = Q.leftCols(n); for (int i = 0; i < m; i++) { DM mm(n, n); for (int r = 0, a = 0; r < m; r++) if (r != i) { for (int c = 0; c < n; c++) mm(a, c) = B(r, c); a++; } Sym d = exact_det(mm); Q(i, n) = (i + n) & 1 ? -d : d; } }
  else if (m > n) throw Unsupported{"QR completion"};
}
bool lookup_left(const DM &R, DM &L) { for (auto &d : eigs) if (mateq(d.U, R)) { L = d.V; return true; } return false; }
DV contract_sym_eigs(const DM &A) {
  // exact eigenvalues, in increasing order, of a constant symmetric matrix of order <= 4 with zero
  // diagonal (spectrum symmetric about 0), via its characteristic polynomial; otherwise abstract
  int n = A.rows(); DV r(n);
  if (n == 1) { r(0) = A(0, 0); return r; }
  if (n == 2) { Sym m = (A(0, 0) + A(1, 1)) / Sym(2), h = (A(0, 0) - A(1, 1)) / Sym(2); Sym q = sqrt(simp(h * h + A(0, 1) * A(1, 0))); r(0) = m - q; r(1) = m + q; return r; }
  bool tri = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i == j || i - j > 1 || j - i > 1) && !is0(A(i, j).id)) tri = false;
  if (tri && n == 3) { Sym s = sqrt(simp(A(0, 1) * A(0, 1) + A(1, 2) * A(1, 2))); r(0) = -s; r(1) = Sym(0); r(2) = s; return r; }
  if (tri && n == 4) { Sym a2 = simp(A(0, 1) * A(0, 1)), b2 = simp(A(1, 2) * A(1, 2)), c2 = simp(A(2, 3) * A(2, 3)); Sym p = simp((a2 + b2 + c2) / Sym(2)), q = simp(a2 * c2); Sym disc = sqrt(simp(p * p - q)); Sym x = sqrt(p + disc), y = sqrt(p - disc); r(0) = -x; r(1) = -y; r(2) = y; r(3) = x; return r; }
  throw Unsupported{"symmetric eigenproblem of this size"};
}

} // namespace se
using namespace se;
static uint32_t cint(long v) { return mkc(mpq_class(v)); }
Sym::Sym(int v) : id(cint(v)) {}
Sym::Sym(unsigned v) : id(cint(v)) {}
Sym::Sym(long v) : id(cint(v)) {}
Sym::Sym(unsigned long v) : id(cint((long)v)) {}
Sym::Sym(long long v) : id(cint(v)) {}
// a literal, or the value of a constant sqrt()/cbrt() folded by the compiler
static uint32_t mkroot(real_double v) {
  mpq_class q = rationalise(v); real_double y = std::fabs(v);
  if (q.get_den() > 1000000 && q.get_num() != 1 && y > 1e-3 && y < 1e4) for (int n = 2; n <= 3; n++) {
    long double w = n == 2 ? (long double)y * y : (long double)y * y * y; long p0 = 0, q0 = 1, p1 = 1, q1 = 0; long double r = w;
    for (int i = 0; i < 8; i++) { long double f = std::floor(r); if (f > 1e7) break; long p2 = (long)f * p1 + p0, q2 = (long)f * q1 + q0; p0 = p1; q0 = q1; p1 = p2; q1 = q2; if (q1 > 2000) break;
      real_double z = n == 2 ? std::sqrt((real_double)p1 / q1) : std::cbrt((real_double)p1 / q1);
      if (std::fabs(z - y) <= 2.3e-16 * y) { mpq_class b(p1, q1); b.canonicalize(); uint32_t t = mk(POW, mkc(b), mkc(mpq_class(1, n))); return v < 0 ? mk(MUL, mkc(-1), t) : t; }
      long double fr = r - f; if (fr < 1e-9L) break; r = 1 / fr; } }
  return mkc(q);
}
Sym::Sym(real_double v) { static std::unordered_map<uint64_t, uint32_t> &c = *new std::unordered_map<uint64_t, uint32_t>(); uint64_t k; memcpy(&k, &v, 8); auto it = c.find(k); if (it != c.end()) { id = it->second; return; } id = mkroot(v); c[k] = id; }
Sym operator+(const Sym &a, const Sym &b) { return Sym::raw(mk(ADD, a.id, b.id)); }
Sym operator-(const Sym &a, const Sym &b) { if (a.id && a.id == b.id) return Sym(0); return Sym::raw(mk(ADD, a.id, mk(MUL, mkc(-1), b.id))); }
Sym operator*(const Sym &a, const Sym &b) { return Sym::raw(mk(MUL, a.id, b.id)); }
Sym operator/(const Sym &a, const Sym &b) { return Sym::raw(mk(DIV, a.id, b.id)); }
Sym Sym::operator-() const { return Sym::raw(mk(MUL, mkc(-1), id)); }
Sym &Sym::operator+=(const Sym &o) { return *this = *this + o; }
Sym &Sym::operator-=(const Sym &o) { return *this = *this - o; }
Sym &Sym::operator*=(const Sym &o) { return *this = *this * o; }
Sym &Sym::operator/=(const Sym &o) { return *this = *this / o; }
Sym &Sym::operator++() { return *this += Sym(1); }
Sym &Sym::operator--() { return *this -= Sym(1); }
bool operator<(const Sym &a, const Sym &b) { return decide((a - b).id, 1, "<"); }
bool operator>(const Sym &a, const Sym &b) { return decide((a - b).id, 4, ">"); }
bool operator<=(const Sym &a, const Sym &b) { return decide((a - b).id, 3, "<="); }
bool operator>=(const Sym &a, const Sym &b) { return decide((a - b).id, 6, ">="); }
bool operator==(const Sym &a, const Sym &b) { return decide((a - b).id, 2, "=="); }
bool operator!=(const Sym &a, const Sym &b) { return decide((a - b).id, 5, "!="); }
std::ostream &operator<<(std::ostream &o, const Sym &s) { return o << show(s, 8); }
Sym sqrt(const Sym &a) { return Sym::raw(mk(POW, a.id, mkc(mpq_class(1, 2)))); }
Sym cbrt(const Sym &a) { return Sym::raw(mk(POW, a.id, mkc(mpq_class(1, 3)))); }
#define U1(f, OP) Sym f(const Sym &a) { return Sym::raw(mk(OP, a.id, 0)); }
U1(exp, EXP) U1(log, LOG) U1(sin, SIN) U1(cos, COS) U1(tan, TAN) U1(atan, ATAN) U1(asin, ASIN) U1(acos, ACOS) U1(tanh, TANH) U1(sinh, SINH) U1(cosh, COSH) U1(floor, FLOOR)
Sym ceil(const Sym &a) { return -floor(-a); }
Sym atan2(const Sym &a, const Sym &b) { return Sym::raw(mk(ATAN2, a.id, b.id)); }
Sym pow(const Sym &a, const Sym &b) { return Sym::raw(mk(POW, a.id, b.id)); }
Sym abs(const Sym &a) { if (!a.id) return a; int s = const_sign(a.id); if (!s) s = signs(a.id); if (!(s & 1)) return a; if (!(s & 4)) return -a; return sqrt(a * a); }
Sym abs(const CSym &a) { if (a.imag().id && is0(a.imag().id)) return abs(a.real()); return sqrt(a.real() * a.real() + a.imag() * a.imag()); }
Sym std::numeric_limits<Sym>::quiet_NaN() { return Sym(); }
// truncation towards zero of a symbolic real: case split over the integers in range
static long toint(const Sym &a) {
  if (!a.id) throw PoisonUse{};
  if (isc(a.id)) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), cv(a.id).get_num_mpz_t(), cv(a.id).get_den_mpz_t()); return z.get_si(); }
  real_double v; if (const_value(a.id, v)) return (long)v;
  for (long k = 0; k < 64; k++) { if (a < Sym(k + 1) && a > Sym(k == 0 ? -1 : k - 0) - Sym(0)) { if (k == 0 || a >= Sym(k)) return k; } if (k && a > Sym(-k - 1) && a <= Sym(-k)) return -k; if (k && a == Sym(k)) return k; }
  throw KillPath{};
}
Sym::operator int() const { return (int)toint(*this); }
Sym::operator long() const { return toint(*this); }
Sym::operator unsigned long() const { return (unsigned long)toint(*this); }
Sym::operator bool() const { return *this != Sym(0); }
Sym::operator real_double() const { real_double v; if (const_value(id, v)) return v; throw Unsupported{"symbolic value converted to a machine number"}; }

#include "drv.inc"

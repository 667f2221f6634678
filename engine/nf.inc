// ---- canonical Laurent polynomials over variables and transcendental/algebraic atoms ----
struct Budget {};
typedef vector<std::pair<uint32_t, int>> Mono;      // sorted by atom
struct MH { size_t operator()(const Mono &m) const { size_t h = 1469598103934665603ull; for (auto &p : m) { h = (h ^ p.first) * 1099511628211ull; h = (h ^ (uint32_t)p.second) * 1099511628211ull; } return h; } };
static vector<Mono> MT_{Mono()};
static std::unordered_map<Mono, uint32_t, MH> MI_{{Mono(), 0}};
static uint32_t mid(const Mono &m) { auto it = MI_.find(m); if (it != MI_.end()) return it->second; uint32_t i = MT_.size(); MT_.push_back(m); MI_.emplace(m, i); return i; }
typedef vector<std::pair<uint32_t, mpq_class>> Poly;  // sorted by monomial id, no zero coefficients
enum AK { A_VAR, A_INV, A_EXP, A_LOGV, A_LOGC, A_LOGP, A_FN };
struct Atom { AK k; uint32_t x; Poly p; string key; bool cst; };
static vector<Atom> AT;
static std::unordered_map<string, uint32_t> AI;
static long term_ops, term_limit = 40000000; static size_t size_limit = 400000;
static string pkey(const Poly &p) { string s; for (auto &t : p) { s += std::to_string(t.first); s += ':'; s += t.second.get_str(36); s += ' '; } return s; }
static uint32_t atom(AK k, uint32_t x, const Poly &p, const string &extra, bool cst) {
  string key = std::to_string(k) + "/" + std::to_string(x) + "/" + extra + "/" + pkey(p);
  auto it = AI.find(key); if (it != AI.end()) return it->second;
  uint32_t i = AT.size(); AT.push_back({k, x, p, key, cst}); AI[key] = i; return i;
}
static Poly pc_(const mpq_class &q) { Poly p; if (sgn(q)) p.push_back({0, q}); return p; }
static Poly patom(uint32_t a, int e = 1) { return Poly{{mid(Mono{{a, e}}), mpq_class(1)}}; }
static const int U60 = 60;
static Poly padd(const Poly &a, const Poly &b, const mpq_class &kb = 1) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, kb * b[j].second}); j++; }
    else { mpq_class c = a[i].second + kb * b[j].second; if (sgn(c)) r.push_back({a[i].first, c}); i++; j++; }
  }
  if (r.size() > size_limit) throw Budget{};
  term_ops += r.size();
  return r;
}
static Poly pscale(Poly a, const mpq_class &k) { if (!sgn(k)) return Poly(); for (auto &t : a) t.second *= k; return a; }
static Poly pmul(const Poly &a, const Poly &b);
static Poly ppow(const Poly &a, int e);
static Poly pinv(const Poly &p);
static bool atom_const(uint32_t a) { return AT[a].cst; }
static bool poly_const(const Poly &p) { for (auto &t : p) for (auto &q : MT_[t.first]) if (!atom_const(q.first)) return false; return true; }
// E(m)^60 = the thing whose logarithm m is
static bool exp_base(uint32_t a, Poly &base) {
  const Atom &A = AT[a]; if (A.k != A_EXP) return false;
  const Mono &m = MT_[A.x]; if (m.size() != 1 || m[0].second != 1) return false;
  const Atom &L = AT[m[0].first];
  if (L.k == A_LOGV) { base = patom(L.x); return true; }
  if (L.k == A_LOGC) { base = pc_(mpq_class(L.x)); return true; }
  if (L.k == A_LOGP) { base = L.p; return true; }
  return false;
}
// product of two monomials; extra polynomial factor when an algebraic atom overflows
static std::unordered_map<uint64_t, uint32_t> mmcache;
static bool mmul(uint32_t x, uint32_t y, uint32_t &out, Poly &extra) {
  if (x > y) std::swap(x, y);
  uint64_t k = ((uint64_t)x << 32) | y; auto it = mmcache.find(k);
  if (it != mmcache.end()) { out = it->second; return false; }
  Mono r; { const Mono &a = MT_[x], &b = MT_[y]; size_t i = 0, j = 0; r.reserve(a.size() + b.size());
    while (i < a.size() || j < b.size()) {
      if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
      else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; }
    } }
  bool ex = false; Poly xp;
  Mono r2; 
  for (auto &p : r) {
    Poly base; int e = p.second;
    if (AT[p.first].k == A_EXP && (e >= U60 || e < 0) && exp_base(p.first, base)) {
      int q = e >= 0 ? e / U60 : -((-e + U60 - 1) / U60); int rem = e - q * U60;
      if (rem) r2.push_back({p.first, rem});
      Poly f = ppow(base, q); xp = ex ? pmul(xp, f) : f; ex = true;
    } else if (AT[p.first].k == A_INV && e < 0) { Poly f = ppow(AT[p.first].p, -e); xp = ex ? pmul(xp, f) : f; ex = true; }
    else if (AT[p.first].k == A_FN && AT[p.first].x == SIN && e >= 2) { // sin^2 = 1 - cos^2
      uint32_t c = atom(A_FN, COS, AT[p.first].p, "", AT[p.first].cst); if (e & 1) r2.push_back({p.first, 1});
      Poly f = ppow(padd(pc_(1), patom(c, 2), -1), e / 2); xp = ex ? pmul(xp, f) : f; ex = true; }
    else r2.push_back(p);
  }
  out = mid(r2);
  if (ex) { extra = xp; return true; }
  mmcache[k] = out; if (mmcache.size() > 4000000) mmcache.clear();
  return false;
}
struct Acc {
  std::unordered_map<uint32_t, mpq_class> h;
  void add(uint32_t m, const mpq_class &c) { auto r = h.emplace(m, c); if (!r.second) r.first->second += c; }
  Poly done() { Poly p; p.reserve(h.size()); for (auto &t : h) if (sgn(t.second)) p.push_back(t); std::sort(p.begin(), p.end(), [](const auto &a, const auto &b) { return a.first < b.first; }); return p; }
};
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.empty() || b.empty()) return Poly();
  if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
  if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
  term_ops += (long)a.size() * b.size();
  if (term_ops > term_limit) throw Budget{};
  Acc acc; Poly more;
  for (auto &s : a) for (auto &t : b) {
    uint32_t m; Poly ex;
    if (mmul(s.first, t.first, m, ex)) { Poly one{{m, s.second * t.second}}; Poly f = pmul(one, ex); for (auto &u : f) acc.add(u.first, u.second); }
    else acc.add(m, s.second * t.second);
    if (acc.h.size() > size_limit) throw Budget{};
  }
  return acc.done();
}
static Poly ppow(const Poly &a, int e) {
  if (e < 0) return ppow(pinv(a), -e);
  Poly r = pc_(1), x = a; while (e) { if (e & 1) r = pmul(r, x); e >>= 1; if (e) x = pmul(x, x); } return r;
}
// Laurent monomial content (common factor), leaving a primitive polynomial
static void content(const Poly &p, Mono &c, mpq_class &k, Poly &prim) {
  std::map<uint32_t, int> mn; bool first = true;
  for (auto &t : p) { std::map<uint32_t, int> cur; for (auto &q : MT_[t.first]) cur[q.first] = q.second;
    if (first) { mn = cur; first = false; }
    else { for (auto it = mn.begin(); it != mn.end();) { auto c2 = cur.find(it->first); int e = c2 == cur.end() ? 0 : c2->second; it->second = std::min(it->second, e); ++it; } for (auto &q : cur) if (!mn.count(q.first)) mn[q.first] = std::min(0, q.second); } }
  c.clear(); for (auto &q : mn) { if (!q.second) continue; AK k = AT[q.first].k; if (k == A_VAR || k == A_FN || k == A_LOGV || k == A_LOGC || k == A_LOGP || k == A_EXP || (k == A_INV && q.second > 0)) c.push_back({q.first, q.second}); }
  Mono inv; for (auto q : c) inv.push_back({q.first, -q.second});
  Acc acc; for (auto &t : p) { // divide monomial by content directly
    Mono r; const Mono &a = MT_[t.first]; size_t i = 0, j = 0;
    while (i < a.size() || j < inv.size()) { if (j >= inv.size() || (i < a.size() && a[i].first < inv[j].first)) r.push_back(a[i++]); else if (i >= a.size() || inv[j].first < a[i].first) r.push_back(inv[j++]); else { int e = a[i].second + inv[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; } }
    acc.add(mid(r), t.second); }
  prim = acc.done();
  k = prim.empty() ? mpq_class(1) : prim.back().second;
}
static Poly mono_pow(const Mono &c, int e) { Poly r = pc_(1); for (auto &q : c) r = pmul(r, patom(q.first, 1).size() ? [&] { int x = q.second * e; const Atom &A = AT[q.first]; if (A.k == A_INV && x < 0) return ppow(A.p, -x); Poly b; if (A.k == A_EXP && exp_base(q.first, b)) { // normalise exponent
      int qn = x >= 0 ? x / U60 : -((-x + U60 - 1) / U60), rem = x - qn * U60; Poly t = rem ? patom(q.first, rem) : pc_(1); return qn ? pmul(t, ppow(b, qn)) : t; } return patom(q.first, x); }() : pc_(1)); return r; }
static Poly pinv(const Poly &p) {
  if (p.empty()) throw Unsupported{"division by zero"};
  Mono c; mpq_class k; Poly prim; content(p, c, k, prim);
  Poly f = mono_pow(c, -1);
  if (prim.size() == 1) return pscale(f, 1 / prim[0].second);
  // constant field element a + b*r with r a square root: rationalise
  if (poly_const(prim)) {
    uint32_t r = ~0u; for (auto &t : prim) for (auto &q : MT_[t.first]) if (AT[q.first].k == A_EXP && q.second == U60 / 2 && (r == ~0u || q.first > r)) r = q.first;
    if (r != ~0u) { Poly base; bool ok = exp_base(r, base); Poly P, Q; for (auto &t : prim) { Mono m; bool has = false; for (auto &q : MT_[t.first]) { if (q.first == r) { has = true; if (q.second != U60 / 2) ok = false; } else m.push_back(q); } Poly one{{mid(m), t.second}}; if (has) Q = padd(Q, one); else P = padd(P, one); }
      if (ok) { Poly rr = patom(r, U60 / 2); Poly den = padd(pmul(P, P), pmul(pmul(Q, Q), base), -1); if (!den.empty()) return pmul(f, pmul(padd(P, pmul(Q, rr), -1), pinv(den))); } }
  }
  prim = pscale(prim, 1 / k);
  uint32_t a = atom(A_INV, 0, prim, "", poly_const(prim));
  return pscale(pmul(f, patom(a)), 1 / k);
}
static std::unordered_map<uint32_t, std::shared_ptr<Poly>> nfm; static bool nfm_subst = false; static size_t nfm_terms;
static Poly nf(uint32_t i);
static Poly plog(const Poly &p);
static int atom_sign(uint32_t a) { const Atom &A = AT[a]; if (A.k == A_VAR) { auto &v = VI[N_[A.x].a]; return v.dom == 1 || (v.dom == 3 && v.lo > 0) ? 4 : 7; } if (A.k == A_EXP) return 4; return 7; }
static Poly logconst(mpq_class q) { // q > 0
  Poly r; if (q == 1) return r;
  auto fac = [&](mpz_class z, int sg) { for (unsigned long p = 2; p < 2000 && z > 1; p++) { int e = 0; while (z % p == 0) { z /= p; e++; } if (e) r = padd(r, patom(atom(A_LOGC, p, Poly(), "", true)), mpq_class(sg * e)); } if (z > 1) { if (z.fits_uint_p()) r = padd(r, patom(atom(A_LOGC, z.get_ui(), Poly(), "", true)), mpq_class(sg)); else r = padd(r, patom(atom(A_LOGP, 1, pc_(mpq_class(z)), "", true)), mpq_class(sg)); } };
  fac(q.get_num(), 1); fac(q.get_den(), -1); return r;
}
static std::unordered_map<uint32_t, Poly> sqmap; // log of what a lemma says is a square of something positive
static Poly plog(const Poly &p) {
  if (p.empty()) throw Unsupported{"log of zero"};
  Mono c; mpq_class k; Poly prim; content(p, c, k, prim);
  // only factors known to be positive may be pulled out
  Poly r, keep = pc_(1);
  for (auto &q : c) { const Atom &A = AT[q.first];
    if (A.k == A_EXP) { mpq_class w(q.second, U60); w.canonicalize(); r = padd(r, Poly{{A.x, w}}); }
    else if (A.k == A_INV) keep = pmul(keep, patom(q.first, q.second));
    else if (atom_sign(q.first) == 4 && A.k == A_VAR) r = padd(r, patom(atom(A_LOGV, q.first, Poly(), "", A.cst)), mpq_class(q.second));
    else keep = pmul(keep, patom(q.first, q.second)); }
  mpq_class ak = abs(k); r = padd(r, logconst(ak)); prim = pscale(prim, 1 / ak);
  Poly rest = pmul(prim, keep);
  if (rest.size() == 1 && rest[0].first == 0 && rest[0].second == 1) return r;
  // rest = inv atoms only?
  bool onlyinv = rest.size() == 1 && rest[0].second == 1; if (onlyinv) for (auto &q : MT_[rest[0].first]) if (AT[q.first].k != A_INV) onlyinv = false;
  if (onlyinv) { Mono m = MT_[rest[0].first]; bool ok = true; Poly s; for (auto &q : m) s = padd(s, patom(atom(A_LOGP, 0, AT[q.first].p, "", AT[q.first].cst)), mpq_class(-q.second)); if (ok && m.size() == 1) return padd(r, s); }
  uint32_t at = atom(A_LOGP, 0, rest, "", poly_const(rest)); auto sq = sqmap.find(at);
  return padd(r, sq == sqmap.end() ? patom(at) : sq->second);
}
// x = y*y with y > 0 (both obligations): log x is 2 log y from here on, on this path
static void square_lemma(uint32_t x, uint32_t y) {
  Poly lx = plog(nf(x)), l2 = pscale(plog(nf(y)), 2); uint32_t at = ~0u; int n = 0;
  for (auto &t : lx) if (MT_[t.first].size() == 1 && MT_[t.first][0].second == 1 && AT[MT_[t.first][0].first].k == A_LOGP && AT[MT_[t.first][0].first].x == 0 && t.second == 1) { at = MT_[t.first][0].first; n++; }
  if (n != 1) return;
  sqmap[at] = padd(l2, padd(lx, patom(at), -1), -1); nfm.clear(); nfm_terms = 0;
}
static Poly pexp(const Poly &p) {
  Poly r = pc_(1);
  for (auto &t : p) {
    mpq_class e = t.second * U60;
    uint32_t m = t.first; int ex; uint32_t a;
    if (e.get_den() == 1 && e.get_num().fits_sint_p() && abs(e.get_num()) < 100000) { a = atom(A_EXP, m, Poly(), "", [&] { for (auto &q : MT_[m]) if (!atom_const(q.first)) return false; return true; }()); ex = (int)e.get_num().get_si(); }
    else { a = atom(A_EXP, m, Poly(), "q" + t.second.get_str(), [&] { for (auto &q : MT_[m]) if (!atom_const(q.first)) return false; return true; }()); Poly b; ex = 1; // opaque: no algebraic relation used
      AT[a].k = A_FN; AT[a].x = 1000; }
    Poly b; if (AT[a].k == A_EXP && exp_base(a, b)) { int q = ex >= 0 ? ex / U60 : -((-ex + U60 - 1) / U60), rem = ex - q * U60; if (rem) r = pmul(r, patom(a, rem)); if (q) r = pmul(r, ppow(b, q)); }
    else r = pmul(r, patom(a, ex));
  }
  return r;
}
// i = f * f * ... (an odd number of times): then i >= 0 exactly when f >= 0, and a power of i is one of f
static int odd_power(uint32_t i, uint32_t &f) {
  vector<uint32_t> st{i}; int k = 0; f = ~0u;
  while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (N_[x].op == MUL) { if (k + st.size() > 64) return 0; st.push_back(N_[x].a); st.push_back(N_[x].b); continue; } if (f != ~0u && x != f) return 0; f = x; k++; }
  return k % 2 ? k : 0;
}
static Poly nf_(uint32_t i) {
  const Node n = N_[i];
  switch (n.op) {
  case POISON: throw PoisonUse{};
  case CONST: return pc_(cv(i));
  case VAR: { auto it = subst.find(i); if (it != subst.end()) return nf(it->second); return patom(atom(A_VAR, i, Poly(), "", false)); }
  case ADD: { // flatten long sums
    vector<uint32_t> st{i}, leaf; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (N_[x].op == ADD && (x == i || !nfm.count(x)) && leaf.size() + st.size() < 400) { st.push_back(N_[x].a); st.push_back(N_[x].b); } else leaf.push_back(x); }
    if (leaf.size() <= 2) return padd(nf(n.a), nf(n.b));
    Acc acc; for (auto x : leaf) { Poly p = nf(x); term_ops += p.size(); for (auto &t : p) acc.add(t.first, t.second); } if (term_ops > term_limit) throw Budget{}; return acc.done(); }
  case MUL: return pmul(nf(n.a), nf(n.b));
  case DIV: { Poly a = nf(n.a); uint32_t d = n.b; vector<uint32_t> st{d}; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (N_[x].op == MUL) { st.push_back(N_[x].a); st.push_back(N_[x].b); } else a = pmul(a, pinv(nf(x))); } return a; }
  case POW: {
    if (isc(n.b)) { const mpq_class &e = cv(n.b); if (e.get_den() == 1 && abs(e) < 64) { int k = (int)e.get_num().get_si(); return ppow(nf(n.a), k); } 
      if (is0(n.a)) return Poly(); }
    { uint32_t f; int k = odd_power(n.a, f); if (k > 1) { Poly b = nf(f); if (b.empty()) return Poly(); return pexp(pmul(pscale(plog(b), k), nf(n.b))); } }
    Poly b = nf(n.a); if (b.empty()) return Poly();
    // sqrt(x*x) with x of unknown sign stays an atom of x*x (log of a square is fine: base >= 0)
    Poly l = plog(b), e = nf(n.b); return pexp(pmul(l, e)); }
  case EXP: return pexp(nf(n.a));
  case LOG: return plog(nf(n.a));
  case UF: { string k = UI[n.a].name; bool c = true; for (auto x : UI[n.a].args) { Poly p = nf(x); c = c && poly_const(p); k += "|" + pkey(p); } return patom(atom(A_FN, 2000, Poly(), k, false)); }
  case ATAN2: { return patom(atom(A_FN, ATAN2, nf(n.a), pkey(nf(n.b)), false)); }
  default: { Poly p = nf(n.a); if (p.empty()) { if (n.op == COS || n.op == COSH) return pc_(1); if (n.op != ACOS && n.op != FLOOR) return p; }
    // parity, so that f(-x) and f(x) share an atom
    if (n.op != FLOOR && n.op != ACOS && sgn(p.back().second) < 0) { Poly q = pscale(p, -1); Poly a = patom(atom(A_FN, n.op, q, "", poly_const(q))); return (n.op == COS || n.op == COSH) ? a : pscale(a, -1); }
    return patom(atom(A_FN, n.op, p, "", poly_const(p))); }
  }
}
static Poly nf(uint32_t i) {
  auto it = nfm.find(i); if (it != nfm.end()) return *it->second;
  Poly p = nf_(i);
  nfm_terms += p.size(); nfm[i] = std::make_shared<Poly>(p);
  return p;
}
static void nf_trim() { if (nfm_terms > 3000000) { nfm.clear(); nfm_terms = 0; } }
// decide p == 0 exactly: clear denominators, then the polynomial must vanish
static bool pzero(Poly p) {
  for (int guard = 0; guard < 200; guard++) {
    if (p.empty()) return true;
    uint32_t a = ~0u; int k = 0;
    for (auto &t : p) for (auto &q : MT_[t.first]) if (AT[q.first].k == A_INV && (a == ~0u || q.first > a)) a = q.first;
    if (a == ~0u) { // negative powers of plain atoms do not matter; nothing left to clear
      return false; }
    for (auto &t : p) for (auto &q : MT_[t.first]) if (q.first == a) k = std::max(k, q.second);
    Acc acc; Poly D = AT[a].p; std::map<int, Poly> Dp; 
    std::map<int, Poly> groups;
    for (auto &t : p) { int e = 0; Mono m; for (auto &q : MT_[t.first]) if (q.first == a) e = q.second; else m.push_back(q); groups[k - e].push_back({mid(m), t.second}); }
    Poly r; for (auto &g : groups) { std::sort(g.second.begin(), g.second.end(), [](const auto &x, const auto &y) { return x.first < y.first; }); r = padd(r, pmul(g.second, ppow(D, g.first))); }
    p = r;
  }
  throw Budget{};
}
static std::unordered_map<uint32_t, char> cxm;
static bool const_expr(uint32_t i) { if (isc(i)) return true; auto it = cxm.find(i); if (it != cxm.end()) return it->second; const Node n = N_[i]; bool r; switch (n.op) { case POISON: case VAR: case UF: r = false; break; case ADD: case MUL: case DIV: case POW: case ATAN2: r = const_expr(n.a) && const_expr(n.b); break; default: r = const_expr(n.a); } cxm[i] = r; return r; }
// ---- numeric evaluation (113-bit) with a running magnitude --------------------------
typedef __float128 Q;
struct NV { Q v; Q m; };
struct Sample { std::unordered_map<uint32_t, Q> vars; std::unordered_map<uint32_t, NV> memo; unsigned long seed; bool replayable = true; };
static Q q_of(const mpq_class &c) { mpf_class f(0, 160); f = c; mp_exp_t ex; string s = f.get_str(ex, 10, 40); if (s.empty()) return 0; bool ng = s[0] == '-'; if (ng) s = s.substr(1); string t = (ng ? "-0." : "0.") + s + "e" + std::to_string((long)ex); return strtoflt128(t.c_str(), nullptr); }
static std::unordered_map<uint32_t, Q> cq;
static NV ev(uint32_t i, Sample *S);
static NV ev_(uint32_t i, Sample *S) {
  const Node n = N_[i];
  switch (n.op) {
  case POISON: throw PoisonUse{};
  case CONST: { auto it = cq.find(n.a); Q v; if (it != cq.end()) v = it->second; else cq[n.a] = v = q_of(CV[n.a]); return {v, fabsq(v)}; }
  case VAR: { if (!S) throw Unsupported{"not constant"}; auto su = subst.find(i); if (su != subst.end()) return ev(su->second, S); Q v = S->vars.at(i); return {v, fabsq(v)}; }
  case ADD: { NV a = ev(n.a, S), b = ev(n.b, S); return {a.v + b.v, a.m + b.m}; }
  case MUL: { NV a = ev(n.a, S), b = ev(n.b, S); return {a.v * b.v, a.m * fabsq(b.v) + fabsq(a.v) * b.m}; }
  case DIV: { NV a = ev(n.a, S), b = ev(n.b, S); Q v = a.v / b.v; return {v, a.m / fabsq(b.v) + fabsq(v) * b.m / fabsq(b.v)}; }
  case POW: { NV a = ev(n.a, S), b = ev(n.b, S); Q v; if (isc(n.b) && cv(n.b) == mpq_class(1, 3)) v = cbrtq(a.v); else if (isc(n.b) && cv(n.b) == mpq_class(1, 2)) v = sqrtq(a.v); else v = powq(a.v, b.v);
    Q rel = fabsq(b.v) * (a.v == 0 ? Q(1) : a.m / fabsq(a.v)) + (a.v > 0 ? fabsq(logq(a.v)) * b.m : Q(0)); return {v, fabsq(v) * (1 + rel)}; }
  case EXP: { NV a = ev(n.a, S); Q v = expq(a.v); return {v, v * (1 + a.m)}; }
  case LOG: { NV a = ev(n.a, S); Q v = logq(a.v); return {v, fabsq(v) + a.m / fabsq(a.v)}; }
  case SIN: { NV a = ev(n.a, S); return {sinq(a.v), 1 + a.m}; }
  case COS: { NV a = ev(n.a, S); return {cosq(a.v), 1 + a.m}; }
  case TAN: { NV a = ev(n.a, S); Q v = tanq(a.v); return {v, (1 + a.m) * (1 + v * v)}; }
  case ATAN: { NV a = ev(n.a, S); return {atanq(a.v), 1 + a.m}; }
  case ASIN: { NV a = ev(n.a, S); return {asinq(a.v), 1 + a.m / sqrtq(1 - a.v * a.v)}; }
  case ACOS: { NV a = ev(n.a, S); return {acosq(a.v), 1 + a.m / sqrtq(1 - a.v * a.v)}; }
  case ATAN2: { NV a = ev(n.a, S), b = ev(n.b, S); return {atan2q(a.v, b.v), 1 + a.m + b.m}; }
  case TANH: { NV a = ev(n.a, S); return {tanhq(a.v), 1 + a.m}; }
  case SINH: { NV a = ev(n.a, S); Q v = sinhq(a.v); return {v, fabsq(v) + a.m * coshq(a.v)}; }
  case COSH: { NV a = ev(n.a, S); Q v = coshq(a.v); return {v, v + a.m * fabsq(sinhq(a.v))}; }
  case FLOOR: { NV a = ev(n.a, S); return {floorq(a.v), a.m}; }
  case UF: { if (!S) throw Unsupported{"not constant"}; // a pseudo-random but smooth function of the values of its arguments
    unsigned long h = 1469598103934665603ul; for (char c : UI[n.a].name) h = (h ^ (unsigned char)c) * 1099511628211ul; Q s = (Q)(h % 1000003) / 1000003; Q m = 1; int k = 1; Q lin = 0;
    for (auto x : UI[n.a].args) { NV a = ev(x, S); h = h * 6364136223846793005ul + 1442695040888963407ul; Q w = (Q)(h >> 40) / (Q)(1 << 24); lin += w * a.v; m += a.m; k++; }
    if (!UI[n.a].name.compare(0, 3, "svd") || !UI[n.a].name.compare(0, 3, "eig")) S->replayable = false; // the real decomposition is not this function
    Q v = 1.5Q + sinq(s * 7 + lin * 1.25Q); if (!UI[n.a].name.compare(0, 3, "eig")) v = 3 * (v - 1.5Q); return {v, m * 2}; }
  }
  throw Unsupported{"eval"};
}
static NV ev(uint32_t i, Sample *S) {
  static std::unordered_map<uint32_t, NV> cmemo;
  if (const_expr(i)) { auto it = cmemo.find(i); if (it != cmemo.end()) return it->second; NV r = ev_(i, nullptr); cmemo[i] = r; return r; }
  if (!S) throw Unsupported{"not constant"};
  auto it = S->memo.find(i); if (it != S->memo.end()) return it->second;
  NV r = ev_(i, S); S->memo[i] = r; return r;
}
int const_sign(uint32_t d) {
  if (!const_expr(d)) return 0;
  if (isc(d)) return csign(cv(d));
  NV v = ev(d, nullptr);
  if (fabsq(v.v) > 1e-25Q * v.m) return v.v < 0 ? 1 : 4;
  try { if (pzero(nf(d))) return 2; } catch (Budget &) {}
  if (v.v == 0) return 2;
  return fabsq(v.v) < 1e-30Q * v.m ? 2 : v.v < 0 ? 1 : 4;
}
bool const_value(uint32_t d, real_double &v) { if (!const_expr(d)) return false; v = (real_double)ev(d, nullptr).v; return true; }
static size_t dagsize(uint32_t r, size_t lim) { std::unordered_set<uint32_t> seen; vector<uint32_t> st{r}; while (!st.empty() && seen.size() < lim) { uint32_t i = st.back(); st.pop_back(); if (!seen.insert(i).second) continue; const Node &n = N_[i]; switch (n.op) { case CONST: case VAR: case POISON: break; case UF: for (auto a : UI[n.a].args) st.push_back(a); break; case ADD: case MUL: case DIV: case POW: case ATAN2: st.push_back(n.a); st.push_back(n.b); break; default: st.push_back(n.a); } } return seen.size(); }
void canon_key(uint32_t d, string &key, int &sk) {
  key.clear(); sk = 1;
  if (dagsize(d, 2500) >= 2500) return;
  long lim = term_limit, ops = term_ops; term_limit = term_ops + 100000;
  try { Poly p = nf(d); if (p.size() < 3000) { if (pzero(p)) key = "0"; else { mpq_class k = p.back().second; sk = sgn(k); key = pkey(pscale(p, 1 / mpq_class(abs(k)))); if (sk < 0) key = pkey(pscale(p, 1 / k)); } } } catch (Budget &) { key.clear(); } catch (Unsupported &) { key.clear(); }
  term_limit = lim; term_ops = ops;
}
// equality on this path: solve for a variable so that later terms are normalised with it
void try_subst(uint32_t d) {
  try {
    if (dagsize(d, 2500) >= 2500) return;
    Poly p = nf(d);
    for (int guard = 0; guard < 20; guard++) { uint32_t a = ~0u; int k = 0; for (auto &t : p) for (auto &q : MT_[t.first]) if (AT[q.first].k == A_INV && (a == ~0u || q.first > a)) a = q.first; if (a == ~0u) break; for (auto &t : p) for (auto &q : MT_[t.first]) if (q.first == a) k = std::max(k, q.second); Poly r; for (auto &t : p) { int e = 0; Mono m; for (auto &q : MT_[t.first]) if (q.first == a) e = q.second; else m.push_back(q); r = padd(r, pmul(Poly{{mid(m), t.second}}, ppow(AT[a].p, k - e))); } p = r; }
    Mono c; mpq_class k; Poly prim; content(p, c, k, prim);
    std::map<uint32_t, int> deg; std::map<uint32_t, Poly> coef; std::set<uint32_t> bad;
    for (auto &t : prim) for (auto &q : MT_[t.first]) { if (AT[q.first].k == A_VAR) { if (q.second != 1) bad.insert(q.first); } else { // variables inside other atoms are not solvable for
          for (uint32_t v = 0; v < AT.size(); v++) if (AT[v].k == A_VAR) { bool occ = AT[q.first].key.find(std::to_string(mid(Mono{{v, 1}})) + ":") != string::npos; if (occ) bad.insert(v); } } }
    for (int pass = 0; pass < 2; pass++)
    for (uint32_t v = 0; v < AT.size(); v++) if (AT[v].k == A_VAR && !bad.count(v)) {
      Poly A, B; for (auto &t : prim) { Mono m; bool has = false; for (auto &q : MT_[t.first]) if (q.first == v) has = true; else m.push_back(q); if (has) A = padd(A, Poly{{mid(m), t.second}}); else B = padd(B, Poly{{mid(m), t.second}}); }
      if (A.empty() || (pass == 0 && !(A.size() == 1)) ) continue;
      bool pure = true; for (auto *P : {&A, &B}) for (auto &t : *P) for (auto &q : MT_[t.first]) if (AT[q.first].k != A_VAR) pure = false;
      if (!pure) continue;
      auto toexpr = [&](const Poly &P) { uint32_t s = mkc(0); for (auto &t : P) { uint32_t m = mkc(t.second); for (auto &q : MT_[t.first]) m = mk(MUL, m, mk(POW, AT[q.first].x, mkc(q.second))); s = mk(ADD, s, m); } return s; };
      uint32_t e = mk(DIV, mk(MUL, mkc(-1), toexpr(B)), toexpr(A));
      subst[AT[v].x] = e; nfm.clear(); nfm_terms = 0; nfm_subst = true; smemo().clear(); return;
    }
  } catch (Budget &) {} catch (Unsupported &) {}
}
static uint32_t from_poly(const Poly &p, bool &ok);
static uint32_t from_atom(uint32_t a, int e, bool &ok) {
  const Atom &A = AT[a];
  if (A.k == A_VAR) return mk(POW, A.x, mkc(e));
  if (A.k == A_INV) return mk(POW, from_poly(A.p, ok), mkc(-e));
  Poly b; if (A.k == A_EXP && exp_base(a, b)) { mpq_class q(e, U60); q.canonicalize(); return mk(POW, from_poly(b, ok), mkc(q)); }
  ok = false; return 0;
}
static uint32_t from_poly(const Poly &p, bool &ok) { uint32_t s = mkc(0); for (auto &t : p) { uint32_t m = mkc(t.second); for (auto &q : MT_[t.first]) { m = mk(MUL, m, from_atom(q.first, q.second, ok)); if (!ok) return 0; } s = mk(ADD, s, m); } return s; }
Sym simp(const Sym &x) {
  if (!x.id || isc(x.id)) return x;
  if (const_expr(x.id)) { try { Poly p = nf(x.id); bool ok = true; uint32_t r = from_poly(p, ok); if (ok) return Sym::raw(r); } catch (Budget &) {} catch (Unsupported &) {} return x; }
  if (dagsize(x.id, 400) < 400) { string k; int s; canon_key(x.id, k, s); if (k == "0") return Sym(0); }
  return x;
}

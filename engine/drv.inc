// ---- harness entry points, obligation discharge, main ---------------------------------
std::vector<UnitReg *> &all_units() { static std::vector<UnitReg *> v; return v; }
UnitReg::UnitReg(const char *n, const char *f, void (*g)()) : name(n), fns(f), fn(g) { order = all_units().size(); all_units().push_back(this); }
static vector<uint32_t> used_vars;
static Sym usevar(const Sym &s) { for (auto v : used_vars) if (v == s.id) return s; used_vars.push_back(s.id); return s; }
Sym in_pos(const string &n) { return usevar(var(n, 1, 0, 0)); }
Sym in_any(const string &n) { return usevar(var(n, 0, 0, 0)); }
Sym in_range(const string &n, real_double lo, real_double hi) { return usevar(var(n, 3, lo, hi)); }
void assume(bool c) { if (!c) throw KillPath{}; }
void req_gt(const Sym &a, const Sym &b) { assume_sign(a - b, 4); }
void req_ge(const Sym &a, const Sym &b) { assume_sign(a - b, 6); }
void req_eq(const Sym &a, const Sym &b) { assume_sign(a - b, 2); }
void req_ne(const Sym &a, const Sym &b) { assume_sign(a - b, 5); }
void req_finite(const Sym &) {}
void eq(const Sym &a, const Sym &b, const string &n) { add_obl({OB_EQ, a.id, b.id, n, true}); }
void ge(const Sym &a, const Sym &b, const string &n) { add_obl({OB_GE, a.id, b.id, n, true}); }
void gt(const Sym &a, const Sym &b, const string &n) { add_obl({OB_GT, a.id, b.id, n, true}); }
void ne(const Sym &a, const Sym &b, const string &n) { add_obl({OB_NE, a.id, b.id, n, true}); }
void ensure(bool c, const string &n) { add_obl({OB_TRUE, 0, 0, n, c}); }
void square_of(const Sym &x, const Sym &y) { eq(x, y * y, "lemma: a square"); gt(y, 0, "lemma: a positive root"); try { square_lemma(x.id, y.id); } catch (PoisonUse &) {} catch (Unsupported &) {} catch (Budget &) {} }
void defined(const Sym &a, const string &n) { add_obl({OB_TRUE, 0, 0, n, a.id != 0}); }
Sym deriv(const std::function<Sym(Sym)> &f, Sym x) { return diff(f(x), x); }
std::vector<Reals> jac(const std::function<Reals(Reals)> &f, const Reals &x) { Reals y = f(x); std::vector<Reals> J(y.size()); for (size_t i = 0; i < y.size(); i++) for (auto &v : x) J[i].push_back(diff(y[i], v)); return J; }
Sym any_fn(const string &name, const vector<Sym> &args) { return uf(name, args); }
bool is_symbolic() { return true; }
static uint32_t nan_id; bool sym_isnan(const Sym &a) { return nan_id && a.id == nan_id; }
Sym not_a_number() { Sym s = var("not a number", 0, 0, 0); nan_id = s.id; return s; }

static string jq(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static string qs(Q v) { char b[80]; quadmath_snprintf(b, 80, "%.20Qg", v); return b; }
static unsigned long seed0 = 1;
static unsigned long rnd(unsigned long &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static real_double draw(const VarInfo &v, unsigned long &s) {
  // dyadic values, exactly representable as double, of moderate size
  real_double u = (real_double)(rnd(s) >> 40) / (1 << 24);
  real_double x; 
  switch (v.dom) { case 1: x = 0.25 + 2.0 * u; break; case 2: x = 2.25 * u; break; case 3: x = v.lo + (v.hi - v.lo) * (0.001 + 0.998 * u); break; default: x = -1.75 + 3.5 * u; }
  real_double sc = 4096; real_double span = v.dom == 3 ? v.hi - v.lo : 1; while (span * sc < 4096) sc *= 2;
  real_double y = std::round(x * sc) / sc; if (v.dom == 3 && (y <= v.lo || y >= v.hi)) y = x; return y;
}
// sign of a term that is a constant although it is not written as one (the determinant of a rotation): guessed from two
// points, proved by normal form
namespace se { static int hidden_const(uint32_t d) {
  static std::unordered_map<uint32_t, int> memo; bool keep = subst.empty(); // a value found with an equality of this path is not kept
  if (keep) { auto it = memo.find(d); if (it != memo.end()) return it->second; }
  int r = 0;
  try {
    Q v0 = 0; bool same = dagsize(d, 400) < 400;
    for (int t = 0; t < 2 && same; t++) { Sample s; unsigned long st = 0x2545F4914F6CDD1Dul * (t + 1); for (auto v : used_vars) s.vars[v] = draw(VI[N_[v].a], st); NV v = ev(d, &s); if (!(v.v == v.v) || isinfq(v.v)) same = false; else if (!t) v0 = v.v; else same = fabsq(v.v - v0) < 1e-24Q * v.m; }
    if (same) { mpq_class q = rationalise((real_double)v0); if (abs(q.get_den()) <= 64 && same_nf(Sym::raw(d), Sym::raw(mkc(q)))) r = sgn(q) < 0 ? 1 : sgn(q) > 0 ? 4 : 2; }
  } catch (PoisonUse &) {} catch (Unsupported &) {} catch (Budget &) {}
  if (keep) memo[d] = r;
  return r;
} // namespace
}
static bool lit_ok(const Lit &l, Sample &s) { NV v = ev(l.d, &s); if (!(v.v == v.v)) return false; int m = v.v < 0 ? 1 : v.v > 0 ? 4 : 2; if (fabsq(v.v) < 1e-24Q * v.m) m = 2; return m & l.mask; }
static bool equality(const Lit &l) { return l.mask == 2; }
static Q rel_of(Q d, Q a, Q b, Q m) { return d; }
static vector<Sample> get_samples(int want, int tries) {
  vector<Sample> out; auto t0 = std::chrono::steady_clock::now();
  for (int t = 0; t < tries && (int)out.size() < want; t++) {
    if ((t & 63) == 63 && std::chrono::duration<real_double>(std::chrono::steady_clock::now() - t0).count() > 4) break;
    Sample s; unsigned long st = (seed0 * 0x9E3779B97F4A7C15ul) ^ ((unsigned long)(t + 1) * 0xD1B54A32D192ED03ul); for (int i = 0; i < 8; i++) rnd(st);
    for (uint32_t i = 0; i < N_.size(); i++) { }
    for (auto v : used_vars) s.vars[v] = draw(VI[N_[v].a], st);
    bool ok = true;
    try {
      for (auto &su : subst) { NV v = ev(su.second, &s); if (!(v.v == v.v)) ok = false; s.vars[su.first] = (Q)(real_double)v.v; auto &vi = VI[N_[su.first].a]; if ((vi.dom == 1 && !(v.v > 0)) || (vi.dom == 3 && !(v.v >= vi.lo && v.v <= vi.hi))) ok = false; }
      for (auto &l : pc) if (ok && !lit_ok(l, s)) ok = false;
    } catch (PoisonUse &) { ok = false; } catch (Unsupported &) { ok = false; }
    if (ok) out.push_back(std::move(s));
  }
  return out;
}
// ---- SMT ------------------------------------------------------------------------------
static real_double smt_time; static long smt_calls;
struct Smt {
  std::ostringstream decl, asr; std::unordered_map<uint32_t, string> nm; int c = 0;
  string q(const mpq_class &v) { mpz_class n = v.get_num(), d = v.get_den(); string s = n < 0 ? "(- " + mpz_class(-n).get_str() + ".0)" : n.get_str() + ".0"; return d == 1 ? s : "(/ " + s + " " + d.get_str() + ".0)"; }
  string fresh() { string s = "t" + std::to_string(c++); decl << "(declare-const " << s << " Real)\n"; return s; }
  string t(uint32_t i) {
    auto it = nm.find(i); if (it != nm.end()) return it->second;
    const Node n = N_[i]; string r;
    switch (n.op) {
    case CONST: r = q(cv(i)); break;
    case VAR: { auto su = subst.find(i); r = fresh(); nm[i] = r; auto &v = VI[n.a]; if (v.dom == 1) asr << "(assert (> " << r << " 0.0))\n"; if (v.dom == 3) asr << "(assert (and (>= " << r << " " << q(rationalise(v.lo)) << ") (<= " << r << " " << q(rationalise(v.hi)) << ")))\n"; if (su != subst.end()) asr << "(assert (= " << r << " " << t(su->second) << "))\n"; break; }
    case ADD: r = "(+ " + t(n.a) + " " + t(n.b) + ")"; break;
    case MUL: r = "(* " + t(n.a) + " " + t(n.b) + ")"; break;
    case DIV: { string a = t(n.a), b = t(n.b); r = fresh(); asr << "(assert (and (not (= " << b << " 0.0)) (= (* " << r << " " << b << ") " << a << ")))\n"; break; }
    case POW: { string a = t(n.a); if (isc(n.b) && cv(n.b).get_den() == 1 && abs(cv(n.b)) <= 12) { long e = cv(n.b).get_num().get_si(); string p = a; for (long k = 1; k < std::labs(e); k++) p = "(* " + p + " " + a + ")"; if (e < 0) { r = fresh(); asr << "(assert (= (* " << r << " " << p << ") 1.0))\n"; } else r = p; }
      else if (isc(n.b) && abs(cv(n.b).get_den()) <= 3 && sgn(cv(n.b)) > 0 && cv(n.b).get_num() == 1) { r = fresh(); string p = r; for (long k = 1; k < cv(n.b).get_den().get_si(); k++) p = "(* " + p + " " + r + ")"; asr << "(assert (and (>= " << r << " 0.0) (= " << p << " " << a << ")))\n"; }
      else { r = fresh(); asr << "(assert (>= " << r << " 0.0))\n"; if (!(signs(n.a) & 3)) asr << "(assert (> " << r << " 0.0))\n"; } break; }
    case EXP: r = fresh(); { string a = t(n.a); asr << "(assert (and (> " << r << " 0.0) (>= " << r << " (+ 1.0 " << a << ")) (=> (<= " << a << " 0.0) (<= " << r << " 1.0))))\n"; } break;
    case SIN: case COS: case TANH: r = fresh(); asr << "(assert (and (<= " << r << " 1.0) (>= " << r << " (- 1.0))))\n"; break;
    default: r = fresh();
    }
    if (r.size() > 200) { string s = fresh(); asr << "(assert (= " << s << " " << r << "))\n"; r = s; }
    nm[i] = r; return r;
  }
  string lit(uint32_t d, int m) { string s = t(d); switch (m) { case 1: return "(< " + s + " 0.0)"; case 2: return "(= " + s + " 0.0)"; case 3: return "(<= " + s + " 0.0)"; case 4: return "(> " + s + " 0.0)"; case 5: return "(not (= " + s + " 0.0))"; case 6: return "(>= " + s + " 0.0)"; } return m ? "true" : "false"; }
};
static int z3_says_unsat(const string &txt, int timeout_s) {
  char fn[] = "/tmp/se_smt_XXXXXX"; int fd = mkstemp(fn); if (fd < 0) return 0;
  if (write(fd, txt.data(), txt.size()) < 0) {} close(fd);
  auto t0 = std::chrono::steady_clock::now(); smt_calls++;
  string cmd = "timeout " + std::to_string(timeout_s + 1) + " z3 -T:" + std::to_string(timeout_s) + " " + fn + " 2>/dev/null";
  FILE *f = popen(cmd.c_str(), "r"); char buf[64] = {0}; if (f) { if (!fgets(buf, 63, f)) buf[0] = 0; pclose(f); } unlink(fn);
  smt_time += std::chrono::duration<real_double>(std::chrono::steady_clock::now() - t0).count();
  return !strncmp(buf, "unsat", 5);
}
// linear step: the facts and the denied obligation as linear arithmetic over the monomials of their canonical polynomials
// (each monomial one unknown; unsatisfiable here means unsatisfiable)
static int lin_unsat(uint32_t d, int mask) {
  std::ostringstream decl, asr; std::set<uint32_t> seen; Smt fmt;
  auto one = [&](uint32_t x, int m) {
    if ((m & 7) == 7) return true; Poly p;
    static std::set<uint32_t> hard; if (hard.count(x)) return false; // too large to expand: left out (fewer facts, still sound)
    try { term_limit = term_ops + 1500000; if (dagsize(x, 3000) >= 3000) return false; nf_trim(); p = nf(x); } catch (Budget &) { hard.insert(x); return false; } catch (Unsupported &) { return false; }
    if (p.size() > 400) return false;
    string s = "(+ 0.0 0.0"; for (auto &t : p) { if (t.first == 0) { s += " " + fmt.q(t.second); continue; }
      if (seen.insert(t.first).second) { decl << "(declare-const m" << t.first << " Real)\n"; bool pos = true, nn = true; for (auto &q : MT_[t.first]) { bool ps = atom_sign(q.first) == 4; if (!ps) pos = false; if (!ps && q.second % 2) nn = false; } if (pos) asr << "(assert (> m" << t.first << " 0.0))\n"; else if (nn) asr << "(assert (>= m" << t.first << " 0.0))\n"; }
      s += " (* " + fmt.q(t.second) + " m" + std::to_string(t.first) + ")"; }
    s += ")"; const char *o[] = {"", "<", "=", "<=", ">", "", ">="};
    if ((m & 7) == 0) asr << "(assert false)\n"; else if (m == 5) asr << "(assert (not (= " << s << " 0.0)))\n"; else asr << "(assert (" << o[m] << " " << s << " 0.0))\n";
    return true; };
  for (auto &l : pc) one(l.d, l.mask);
  if (d && !one(d, mask)) return 0;
  return z3_says_unsat("(set-logic QF_LRA)\n" + decl.str() + asr.str() + "(check-sat)\n", 10);
}
// returns 1 unsat, 0 sat/unknown
static int smt_unsat(uint32_t d, int mask, int timeout_s) {
  if (lin_unsat(d, mask)) return 1;
  Smt s; for (auto &l : pc) { string x = s.lit(l.d, l.mask); s.asr << "(assert " << x << ")\n"; }
  if (d) { string x = s.lit(d, mask); s.asr << "(assert " << x << ")\n"; }
  return z3_says_unsat("(set-logic QF_NRA)\n" + s.decl.str() + s.asr.str() + "(check-sat)\n", timeout_s);
}
struct Res { long n = 0, syn = 0, nfd = 0, sign = 0, smt = 0, infeasible = 0, und = 0, ref = 0; std::map<string, int> undn; vector<string> refs; std::set<string> refn; };
static Res R;
static string pc_str() { string s; int c = 0; for (auto &l : pc) { if (c++) s += " && "; if (c > 12) { s += ".."; break; } const char *r[] = {"", "<0", "==0", "<=0", ">0", "!=0", ">=0"}; s += showi(l.d, 4) + r[l.mask & 7]; } return s; }
static void refute(const Obl &o, Sample *s, const string &what, const string &a, const string &b, const string &d) {
  R.ref++;
  if (!R.refn.insert(o.name).second || R.refs.size() > 20) return;
  string j = "{\"name\":" + jq(o.name) + ",\"what\":" + jq(what) + ",\"path\":" + jq(pc_str()) + ",\"lhs\":" + jq(a) + ",\"rhs\":" + jq(b) + ",\"diff\":" + jq(d) + ",\"abstract\":" + (s && s->replayable ? "false" : "true");
  if (s) { j += ",\"inputs\":{"; int c = 0; for (auto v : used_vars) { if (c++) j += ","; char t[64]; snprintf(t, 64, "%.17g", (real_double)s->vars[v]); j += jq(VI[N_[v].a].name) + ":" + t; } j += "}"; }
  R.refs.push_back(j + "}");
}
static bool by_sign(const Obl &o, uint32_t d) {
  int want = o.kind == OB_GE ? 6 : o.kind == OB_GT ? 4 : 5, sg = signs(d), cs = const_sign(d); if (cs) sg = cs;
  if (!(sg & ~want & 7)) return true;
  string k; int sk; canon_key(d, k, sk); if (k == "0") return o.kind == OB_GE;
  auto it = pmask.find(k); if (it == pmask.end()) return false;
  int m = it->second; if (sk < 0) m = (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2); return !(m & ~want & 7);
}
static void process(const string &abnormal) {
  vector<Sample> sm = get_samples(12, pc.empty() ? 40 : 300);
  bool feasible_unknown = false;
  if (sm.empty() && !pc.empty()) { // is the path infeasible?
    bool any = !obls.empty() || !abnormal.empty(); if (!any) return;
    if (abnormal.empty()) { // obligations that hold without the path condition need no feasible path
      vector<Obl> left;
      for (auto &o : obls) {
        bool done = false;
        if (o.kind == OB_TRUE) done = o.val;
        else if (o.kind == OB_EQ && o.a && o.b) { done = o.a == o.b || is0(mk(ADD, o.a, mk(MUL, mkc(-1), o.b))); if (done) R.syn++, R.n++; else { term_limit = term_ops + 20000000; try { nf_trim(); if (pzero(padd(nf(o.a), nf(o.b), -1))) { R.nfd++; R.n++; done = true; } } catch (Budget &) {} catch (Unsupported &) {} } if (done) continue; }
        else if (o.a && o.b) { uint32_t d = mk(ADD, o.a, mk(MUL, mkc(-1), o.b)); if (by_sign(o, d)) { R.sign++; R.n++; continue; } if (lin_unsat(d, o.kind == OB_GE ? 1 : o.kind == OB_GT ? 3 : 2)) { R.smt++; R.n++; continue; } }
        if (done) { R.syn++; R.n++; } else left.push_back(o);
      }
      obls.swap(left); if (obls.empty()) return;
    }
    if (lin_unsat(0, 0)) { R.n += obls.size() + !abnormal.empty(); R.infeasible += obls.size() + !abnormal.empty(); return; }
    sm = get_samples(12, 3000);
    if (sm.empty()) {
    if (getenv("SE_DEBUG")) fprintf(stderr, "no sample: %s\n", pc_str().c_str());
    if (smt_unsat(0, 0, 10)) { R.n += obls.size() + !abnormal.empty(); R.infeasible += obls.size() + !abnormal.empty(); return; }
    sm = get_samples(12, 200000);
    feasible_unknown = sm.empty(); }
  }
  if (!abnormal.empty()) { Obl o{OB_TRUE, 0, 0, abnormal, false}; obls.push_back(o); }
  for (auto &o : obls) {
    R.n++;
    if (o.kind == OB_TRUE) { if (o.val) { R.syn++; continue; } if (sm.empty()) { R.und++; R.undn[o.name]++; continue; } refute(o, &sm[0], "condition is false on a feasible path", "false", "true", ""); continue; }
    if (o.a == 0 || o.b == 0) { if (sm.empty() && feasible_unknown) { R.und++; R.undn[o.name]++; continue; } refute(o, sm.empty() ? nullptr : &sm[0], "value read before it is initialised", "uninitialised", "", ""); continue; }
    if (o.kind == OB_EQ && o.a == o.b) { R.syn++; continue; }
    uint32_t d = mk(ADD, o.a, mk(MUL, mkc(-1), o.b));
    if (o.kind == OB_EQ && is0(d)) { R.syn++; continue; }
    // numeric refutation first: cheap, and gives the failing input
    Sample *bad = nullptr; Q worst = 0, ba = 0, bb = 0; bool nanall = true;
    for (auto &s : sm) { NV a = ev(o.a, &s), b = ev(o.b, &s); if (!(a.v == a.v) || !(b.v == b.v) || isinfq(a.v) || isinfq(b.v)) continue; nanall = false; Q df = a.v - b.v, m = a.m + b.m, mx = std::max(fabsq(a.v), fabsq(b.v)); Q viol = 0;
      if (o.kind == OB_EQ) viol = fabsq(df); else if (o.kind == OB_GE) viol = -df; else if (o.kind == OB_GT) viol = df > 0 ? Q(0) : -df + 1e-20Q; else viol = fabsq(df) < 1e-28Q * m ? 1 : 0;
      if (viol > 1e-13Q * m * (o.kind == OB_GT || o.kind == OB_NE ? 0 : 1) && viol > 1e-10Q * mx * (o.kind == OB_GT || o.kind == OB_NE ? 0 : 1) && viol > 0) { Q rel = viol / (m > 0 ? m : Q(1)); if (!s.replayable) rel *= 1e-6Q; if (rel > worst) { worst = rel; bad = &s; ba = a.v; bb = b.v; } } }
    if (bad) { refute(o, bad, o.kind == OB_EQ ? "not equal" : o.kind == OB_NE ? "equal" : "inequality violated", qs(ba), qs(bb), qs(fabsq(ba - bb))); continue; }
    bool done = false;
    if (o.kind == OB_EQ) {
      long ops0 = term_ops; term_limit = term_ops + 60000000;
      try { nf_trim(); Poly p = padd(nf(o.a), nf(o.b), -1); if (pzero(p)) { R.nfd++; done = true; } } catch (Budget &) {} catch (Unsupported &) {}
      (void)ops0;
      if (!done && const_expr(d) && const_sign(d) == 2) { R.nfd++; done = true; }
      if (!done && getenv("SE_DEBUG")) { try { fprintf(stderr, "%s\n  lhs %.600s\n  rhs %.600s\n  ext %s\n", o.name.c_str(), pkey(nf(o.a)).c_str(), pkey(nf(o.b)).c_str(), showi(o.a, 6).substr(0, 600).c_str()); } catch (Budget &) { fprintf(stderr, "budget\n"); } }
      if (!done && smt_unsat(d, 5, 8)) { R.smt++; done = true; }
    } else {
      int want = o.kind == OB_GE ? 6 : o.kind == OB_GT ? 4 : 5;
      if (by_sign(o, d)) { R.sign++; done = true; }
      if (!done && smt_unsat(d, 7 & ~want, 20)) { R.smt++; done = true; }
    }
    if (!done) { if (feasible_unknown && smt_unsat(0, 0, 20)) { R.infeasible++; continue; } R.und++; R.undn[o.name + (nanall ? " (undefined value at the sampled points)" : "")]++; }
  }
}
static void run_unit(UnitReg *u, long max_paths, real_double tmax) {
  auto t0 = std::chrono::steady_clock::now(); R = Res(); prefix_.clear(); truncated = false; long paths = 0, killed = 0; string unsup;
  auto el = [&] { return std::chrono::duration<real_double>(std::chrono::steady_clock::now() - t0).count(); };
  while (true) {
    ppos = 0; pc.clear(); kmask.clear(); pmask.clear(); spans.clear(); smemo().clear(); obls.clear(); used_vars.clear(); svds.clear(); eigs.clear();
    if (!sqmap.empty()) { sqmap.clear(); nfm_subst = true; } if (nfm_subst) { nfm.clear(); nfm_terms = 0; nfm_subst = false; } subst.clear();
    in_unit = true; bool kill = false; string abn;
    try { u->fn(); }
    catch (KillPath &) { kill = true; }
    catch (AssertFail &e) { abn = "no assertion failure in the code under contract: " + e.what; }
    catch (PoisonUse &) { abn = "no branch on an uninitialised value"; }
    catch (const char *e) { abn = string("no exception: ") + e; }
    catch (Unsupported &e) { unsup = e.what; }
    catch (std::exception &e) { abn = string("no exception: ") + e.what(); }
    in_unit = false;
    if (getenv("VERIF_DUMP")) std::cerr << "path " << paths << (kill ? " killed" : "") << ": " << pc_str() << "\n";
    if (!unsup.empty()) break;
    paths++; if (kill) killed++; else { in_unit = true; process(abn); in_unit = false; }
    while (!prefix_.empty() && !prefix_.back()) prefix_.pop_back();
    if (prefix_.empty()) break;
    prefix_.back() = 0;
    if (paths >= max_paths || el() > tmax) { truncated = true; break; }
  }
  std::ostringstream o; o << "{\"unit\":" << jq(u->name) << ",\"fns\":" << jq(u->fns) << ",\"paths\":" << paths << ",\"assumed_away\":" << killed << ",\"truncated\":" << (truncated ? "true" : "false")
    << ",\"obligations\":" << R.n << ",\"syntactic\":" << R.syn << ",\"normal_form\":" << R.nfd << ",\"sign\":" << R.sign << ",\"smt\":" << R.smt << ",\"infeasible_path\":" << R.infeasible << ",\"undecided\":" << R.und << ",\"refuted\":" << R.ref
    << ",\"smt_calls\":" << smt_calls << ",\"smt_s\":" << smt_time << ",\"time\":" << el() << ",\"terms\":" << N_.size() << ",\"unsupported\":" << jq(unsup) << ",\"notes\":[";
  int c = 0; for (auto &n : notes_) o << (c++ ? "," : "") << jq(n); notes_.clear();
  o << "],\"undecided_names\":["; c = 0; for (auto &n : R.undn) { if (c >= 10) break; o << (c++ ? "," : "") << jq(n.first); }
  o << "],\"refutations\":["; c = 0; for (auto &n : R.refs) o << (c++ ? "," : "") << n; o << "]}";
  puts(o.str().c_str()); fflush(stdout); smt_calls = 0; smt_time = 0;
}
int main(int argc, char **argv) {
  string only; long mp = 20000; real_double tm = 400; bool list = false;
  for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--list") list = true; else if (a == "--unit") only = argv[++i]; else if (a == "--paths") mp = atol(argv[++i]); else if (a == "--time") tm = atof(argv[++i]); else if (a == "--depth") max_depth = atoi(argv[++i]); else if (a == "--seed") seed0 = strtoul(argv[++i], 0, 10) + 1; }
  if (list) { for (auto u : all_units()) printf("%s\n", u->name); return 0; }
  for (auto u : all_units()) if (only.empty() || only == u->name) run_unit(u, mp, tm);
  return 0;
}

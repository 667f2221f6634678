// Signed distance: the zero set is kept, the gradient has unit length, signs never change.
#include "gpr.h"
#include "multi/functions.h"
#include "multi/pfmm.h"
#define private public
#define protected public
#include "skfmm/heap.h"
#include "skfmm/distance_marcher.h"
#undef private
#undef protected
#define FD "distance march initalizeFrozen initalizeNarrow solve updatePointOrderOne solveQuadratic"
static double mag(double x) { return x < 0 ? -x : x; }
static double lo2(double a, double b) { return a < b ? a : b; }
struct Grid { int nx, ny; bool in(int i, int j) const { return i >= 0 && j >= 0 && i < nx && j < ny; } int at(int i, int j) const { return i * ny + j; } };
static const int DI[4] = {-1, 1, 0, 0}, DJ[4] = {0, 0, -1, 1};
// what every result must satisfy, cell by cell (square cells of size h); s: signs of the input
static void laws(const Grid &g, const Vec &f, const std::vector<int> &s, const Vec &d, double h, const std::string &t) {
  bool any = false; for (int k = 0; k < g.nx * g.ny; k++) for (int q = 0; q < 4; q++) { int i = k / g.ny + DI[q], j = k % g.ny + DJ[q]; if (!s[k] || (g.in(i, j) && s[k] * s[g.at(i, j)] < 0)) any = true; }
  for (int i = 0; i < g.nx; i++) for (int j = 0; j < g.ny; j++) {
    int k = g.at(i, j); std::string w = t + "[" + S(i) + "," + S(j) + "]"; if (!any) { eq(d(k), f(k), "without an interface the field is kept" + w); continue; }
    if (!s[k]) { eq(d(k), 0, "zero on the interface" + w); continue; } if (s[k] > 0) gt(d(k), 0, "positive outside" + w); else gt(0, d(k), "negative inside" + w);
    bool border = false; double b = 0; for (int q = 0; q < 4; q++) { int a = i + DI[q], c = j + DJ[q]; if (!g.in(a, c) || s[k] * s[g.at(a, c)] >= 0) continue; double x = h * f(k) / (f(k) - f(g.at(a, c))); b = border ? lo2(b, x) : x; border = true; }
    double m = mag(d(k)); if (border) { eq(m, b, "beside the interface: distance to the nearest crossing on the grid lines" + w); continue; }
    double n[2]; bool has[2] = {false, false}; for (int q = 0; q < 4; q++) { int a = i + DI[q], c = j + DJ[q]; if (!g.in(a, c)) continue; double x = mag(d(g.at(a, c))); n[q / 2] = has[q / 2] ? lo2(n[q / 2], x) : x; has[q / 2] = true; }
    if (has[0] && has[1] && mag(n[0] - n[1]) < h) { eq((m - n[0]) * (m - n[0]) + (m - n[1]) * (m - n[1]), h * h, "unit gradient from the nearer neighbours" + w); ge(m, n[0], "further than the neighbours it is reached from" + w); ge(m, n[1], "further than the neighbours it is reached from" + w); }
    else eq(m, (has[0] && has[1] ? lo2(n[0], n[1]) : has[0] ? n[0] : n[1]) + h, "one cell further than the nearest neighbour" + w);
  }
}
static void run(const Grid &g, const Vec &f, const std::vector<int> &s, double h, const std::string &t) { Vec f0 = f; int nd = g.ny > 1 ? 2 : 1; iVec nX(nd); nX(0) = g.nx; if (nd == 2) nX(1) = g.ny; aVec dX(nd); for (int i = 0; i < nd; i++) dX(i) = h; Vec p = f; Vec d = distance(p, dX, nX); for (int k = 0; k < f.size(); k++) eq(p(k), f0(k), "argument is not changed" + t); ensure(d.size() == f.size(), "one value for each cell" + t); laws(g, f0, s, d, h, t); }
// one step of the march: any values of the neighbours that are done, any cell size, on either side
struct Cross { int dim; long flag[9]; double phi[9], dist[9], dx[2]; int shape[2]; };
static int around(int dim, int q) { return dim == 1 ? (q ? 2 : 0) : q == 0 ? 1 : q == 1 ? 7 : q == 2 ? 3 : 5; }
static void step(int dim, int done, int far_, int sg, const std::string &t) { // done: which neighbours have their distance
  Cross c; double h = in_pos("h"); int n = dim == 1 ? 3 : 9, me = dim == 1 ? 1 : 4; c.shape[0] = c.shape[1] = 3; c.dx[0] = c.dx[1] = h; for (int k = 0; k < n; k++) { c.flag[k] = Far; c.phi[k] = sg * in_pos("phi" + S(k)); c.dist[k] = in_any("stale" + S(k)); }
  double best[2]; bool has[2] = {bool(done & 3), bool(done >> 2)}; best[0] = best[1] = in_pos("a"); if (has[0] && has[1]) { double r = in_range("r", -1, 1); req_gt(r, -1); req_gt(1, r); best[1] = best[0] + r * h; req_gt(best[1], 0); }
  for (int q = 0; q < 2 * dim; q++) if (done >> q & 1) { int k = around(dim, q); bool both = (done >> (q & 2) & 3) == 3; c.flag[k] = Frozen; c.dist[k] = sg * (both && (far_ >> q / 2 & 1) == (q & 1) ? best[q / 2] + in_pos("more" + S(q / 2)) : best[q / 2]); }
  distanceMarcher m(c.phi, c.dx, c.flag, c.dist, dim, c.shape, false, 1, 0, 0); double d = m.updatePointOrderOne(me); double v = sg * d;
  if (has[0] && has[1]) { eq((v - best[0]) * (v - best[0]) + (v - best[1]) * (v - best[1]), h * h, "unit gradient" + t); ge(v, (best[0] + best[1]) / 2, "the larger root" + t); gt((v - best[0]) * (v - best[1]), 0, "further than both neighbours" + t); }
  else eq(v, (has[0] ? best[0] : best[1]) + h, "one cell further than the nearest neighbour" + t);
}
UNIT(step_line, "updatePointOrderOne solveQuadratic") { for (int sg = -1; sg < 2; sg += 2) for (int w = 1; w < 4; w++) for (int g = 0; g < 2; g++) step(1, w, g, sg, " (line " + S(w) + "," + S(sg) + ")"); }
#define SP(w) UNIT(step_plane_##w, "updatePointOrderOne solveQuadratic") { for (int sg = -1; sg < 2; sg += 2) for (int g = 0; g < 4; g++) step(2, w, g, sg, " (plane " #w "," + S(sg) + ")"); }
SP(1) SP(2) SP(3) SP(4) SP(5) SP(6) SP(7) SP(8) SP(9) SP(10) SP(11) SP(12) SP(13) SP(14) SP(15)
// where the march starts: any values of a cell and its neighbours with given signs, any cell sizes
static void start(int dim, long b, const std::string &t) {
  Cross c; int n = dim == 1 ? 3 : 9, me = dim == 1 ? 1 : 4, s[9]; c.shape[0] = c.shape[1] = 3; c.dx[0] = in_pos("dx"); c.dx[1] = dim == 2 ? in_pos("dy") : double(0); for (int k = 0; k < n; k++) { c.flag[k] = Far; c.dist[k] = 0; s[k] = 0; }
  s[me] = b % 3 - 1; b /= 3; for (int q = 0; q < 2 * dim; q++) { s[around(dim, q)] = b % 3 - 1; b /= 3; } for (int k = 0; k < n; k++) c.phi[k] = s[k] * in_pos("phi" + S(k));
  distanceMarcher m(c.phi, c.dx, c.flag, c.dist, dim, c.shape, false, 1, 0, 0); m.initalizeFrozen(); if (!s[me]) { ensure(c.flag[me] == Frozen, "a cell on the interface is done" + t); eq(c.dist[me], 0, "at distance zero" + t); return; }
  bool any = false; double x; for (int q = 0; q < 2 * dim; q++) { int k = around(dim, q); if (s[k] * s[me] >= 0) continue; double y = c.dx[q / 2] * c.phi[me] / (c.phi[me] - c.phi[k]); x = any ? lo2(x, y) : y; any = true; }
  ensure((c.flag[me] == Frozen) == any, "a cell is done exactly if the interface lies between it and a neighbour" + t); if (any) eq(c.dist[me], s[me] * x, "at the distance of the nearest crossing on the grid lines, on its own side" + t);
}
UNIT(start_line, "initalizeFrozen") { for (long b = 0; b < 27; b++) start(1, b, " (line " + S(b) + ")"); }
#define SQ(w) UNIT(start_plane_##w, "initalizeFrozen") { start(2, w, " (plane " #w ")"); }
SQ(0) SQ(1) SQ(2) SQ(3) SQ(4) SQ(5) SQ(6) SQ(7) SQ(8) SQ(9) SQ(10) SQ(11) SQ(12) SQ(13) SQ(14) SQ(15) SQ(16) SQ(17) SQ(18) SQ(19)
SQ(20) SQ(21) SQ(22) SQ(23) SQ(24) SQ(25) SQ(26) SQ(27) SQ(28) SQ(29) SQ(30) SQ(31) SQ(32) SQ(33) SQ(34) SQ(35) SQ(36) SQ(37) SQ(38) SQ(39)
SQ(40) SQ(41) SQ(42) SQ(43) SQ(44) SQ(45) SQ(46) SQ(47) SQ(48) SQ(49) SQ(50) SQ(51) SQ(52) SQ(53) SQ(54) SQ(55) SQ(56) SQ(57) SQ(58) SQ(59)
SQ(60) SQ(61) SQ(62) SQ(63) SQ(64) SQ(65) SQ(66) SQ(67) SQ(68) SQ(69) SQ(70) SQ(71) SQ(72) SQ(73) SQ(74) SQ(75) SQ(76) SQ(77) SQ(78) SQ(79)
SQ(80) SQ(81) SQ(82) SQ(83) SQ(84) SQ(85) SQ(86) SQ(87) SQ(88) SQ(89) SQ(90) SQ(91) SQ(92) SQ(93) SQ(94) SQ(95) SQ(96) SQ(97) SQ(98) SQ(99)
SQ(100) SQ(101) SQ(102) SQ(103) SQ(104) SQ(105) SQ(106) SQ(107) SQ(108) SQ(109) SQ(110) SQ(111) SQ(112) SQ(113) SQ(114) SQ(115) SQ(116) SQ(117) SQ(118) SQ(119)
SQ(120) SQ(121) SQ(122) SQ(123) SQ(124) SQ(125) SQ(126) SQ(127) SQ(128) SQ(129) SQ(130) SQ(131) SQ(132) SQ(133) SQ(134) SQ(135) SQ(136) SQ(137) SQ(138) SQ(139)
SQ(140) SQ(141) SQ(142) SQ(143) SQ(144) SQ(145) SQ(146) SQ(147) SQ(148) SQ(149) SQ(150) SQ(151) SQ(152) SQ(153) SQ(154) SQ(155) SQ(156) SQ(157) SQ(158) SQ(159)
SQ(160) SQ(161) SQ(162) SQ(163) SQ(164) SQ(165) SQ(166) SQ(167) SQ(168) SQ(169) SQ(170) SQ(171) SQ(172) SQ(173) SQ(174) SQ(175) SQ(176) SQ(177) SQ(178) SQ(179)
SQ(180) SQ(181) SQ(182) SQ(183) SQ(184) SQ(185) SQ(186) SQ(187) SQ(188) SQ(189) SQ(190) SQ(191) SQ(192) SQ(193) SQ(194) SQ(195) SQ(196) SQ(197) SQ(198) SQ(199)
SQ(200) SQ(201) SQ(202) SQ(203) SQ(204) SQ(205) SQ(206) SQ(207) SQ(208) SQ(209) SQ(210) SQ(211) SQ(212) SQ(213) SQ(214) SQ(215) SQ(216) SQ(217) SQ(218) SQ(219)
SQ(220) SQ(221) SQ(222) SQ(223) SQ(224) SQ(225) SQ(226) SQ(227) SQ(228) SQ(229) SQ(230) SQ(231) SQ(232) SQ(233) SQ(234) SQ(235) SQ(236) SQ(237) SQ(238) SQ(239)
SQ(240) SQ(241) SQ(242) 
// values on a line: one crossing anywhere in its cell, the others fixed
static void line(int n, long b, int base, int var) {
  std::vector<int> s; for (int k = 0; k < n; k++) { int x = b % base; b /= base; s.push_back(base == 2 ? 2 * x - 1 : x - 1); } Vec f(n); std::string t = " (signs"; for (int x : s) t += " " + S(x); t += ", arbitrary at " + S(var) + ")";
  for (int k = 0; k < n; k++) f(k) = s[k] * (1 + (k * 7 % 5)); if (s[var]) { double th = in_range("theta", 0, 5); req_gt(th, 0); req_gt(5, th); f(var) = s[var] * th; } run(Grid{n, 1}, f, s, 0.25, t);
}
UNIT(b_line2, FD) { for (long b = 0; b < 9; b++) for (int v = 0; v < 2; v++) line(2, b, 3, v); }
UNIT(b_line3, FD) { for (long b = 0; b < 27; b++) line(3, b, 3, b % 3); }
#define L4(q) UNIT(b_line4_##q, FD) { for (long b = q; b < 81; b += 8) line(4, b, 3, b % 4); }
L4(0) L4(1) L4(2) L4(3) L4(4) L4(5) L4(6) L4(7)
#define L6(q) UNIT(b_line6_##q, FD) { for (long b = 2 * q; b < 2 * q + 2; b++) line(6, b, 2, b % 6); }
L6(0) L6(1) L6(2) L6(3) L6(4) L6(5) L6(6) L6(7) L6(8) L6(9) L6(10) L6(11) L6(12) L6(13) L6(14) L6(15) L6(16) L6(17) L6(18) L6(19) L6(20) L6(21) L6(22) L6(23) L6(24) L6(25) L6(26) L6(27) L6(28) L6(29) L6(30) L6(31)
// the distance to a single interface on a line is exact, wherever it lies in its cell
static void exact(int n, int k, int side, double h, double sl) { double th = in_range("theta", 0, 1); req_gt(th, 0); req_gt(1, th); Vec f(n); for (int i = 0; i < n; i++) f(i) = side * sl * h * (i - k - th); iVec nX(1); nX << n; aVec dX(1); dX << h; Vec d = distance(f, dX, nX); for (int i = 0; i < n; i++) eq(d(i), side * h * (i - k - th), "distance to the interface beyond cell " + S(k) + " of " + S(n) + "[" + S(i) + "]"); }
#define EX(t, side, h, sl) UNIT(b_exact_##t, FD) { for (int n = 2; n < 9; n++) for (int k = 0; k < n - 1; k++) exact(n, k, side, h, sl); }
EX(a, 1, 0.25, 1) EX(b, -1, 0.25, 1) EX(c, 1, 3, 7) EX(d, -1, 3, 7) EX(e, 1, 1, 0.0009765625) EX(f, -1, 0.0078125, 512)
// planes: signs by a rule, values by another
static void field(int nx, int ny, const std::vector<int> &s, const std::string &t, int salt) { Vec f(nx * ny); for (int k = 0; k < nx * ny; k++) f(k) = s[k] * double(1 + (k * 13 + (salt + 12) * 7) % 6) / 3; run(Grid{nx, ny}, f, s, 0.5, t); }
#define P3(q) UNIT(b_plane3_##q, FD) { for (int b = q; b < 512; b += 8) { std::vector<int> s; for (int k = 0; k < 9; k++) s.push_back(b >> k & 1 ? 1 : -1); field(3, 3, s, " (3x3, signs " + S(b) + ")", b); } }
P3(0) P3(1) P3(2) P3(3) P3(4) P3(5) P3(6) P3(7)
static std::vector<int> shape(int nx, int ny, const std::function<int(int, int)> &f) { std::vector<int> s; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) s.push_back(f(i, j) > 0 ? 1 : f(i, j) < 0 ? -1 : 0); return s; }
UNIT(b_half_planes, FD) { for (int a = -2; a < 3; a++) for (int b = -2; b < 3; b++) if (a || b) field(5, 5, shape(5, 5, [=](int i, int j) { return a * (i - 2) + b * (j - 2) + 1; }), " (half plane " + S(a) + ":" + S(b) + ")", a); }
UNIT(b_discs, FD) { for (int r = 0; r < 9; r++) { field(6, 6, shape(6, 6, [=](int i, int j) { return (i - 3) * (i - 3) + (j - 2) * (j - 2) - r; }), " (disc " + S(r) + ")", r); field(6, 6, shape(6, 6, [=](int i, int j) { return r + 1 - (i - 2) * (i - 2) - (j - 3) * (j - 3); }), " (hole " + S(r) + ")", r); } }
UNIT(b_oblong, FD) { for (int r = 0; r < 4; r++) { field(2, 7, shape(2, 7, [=](int i, int j) { return j - 2 * r + i; }), " (2x7 " + S(r) + ")", r); field(7, 2, shape(7, 2, [=](int i, int j) { return i - 2 * r + j; }), " (7x2 " + S(r) + ")", r); field(3, 8, shape(3, 8, [=](int i, int j) { return (j - 4) * (j - 4) - r + i; }), " (3x8 " + S(r) + ")", r); } }
// a corner of the interface, one crossing anywhere in its cell
static void corner_at(int n, int si, int sj, int sg, double a, double b, const std::string &t) { Vec f(n * n); std::vector<int> s(n * n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int p = si ? n - 1 - i : i, q = sj ? n - 1 - j : j, k = i * n + j; s[k] = p == 0 || q == 0 ? -sg : sg; double v = p == 0 || q == 0 ? double(1) : double(4); if (p == 0 && q >= 2) v = 1 - a; if (q == 0 && p >= 2) v = 1 - b; if (p == 1 && q >= 2) v = a; if (q == 1 && p >= 2) v = b; if (p == 1 && q == 1) v = 1; f(k) = s[k] * v; }
  run(Grid{n, n}, f, s, 0.5, " (corner " + S(si) + S(sj) + ", sign " + S(sg) + t + ")"); }
static void corner(int si, int sj, int sg, int var, double other) { double th = in_range("theta", 0, 1); req_gt(th, 0); req_gt(1, th); double a = var ? other : th, b = var ? th : other; corner_at(3, si, sj, sg, a, b, ", any crossing " + S(var)); }
UNIT(b_corner_grid, FD) { for (int a = 1; a < 16; a += 2) for (int b = 1; b < 16; b++) corner_at(5, a & 2, b & 1, b & 2 ? 1 : -1, double(a) / 16, double(b) / 16, ", crossings " + S(a) + "/16 " + S(b) + "/16"); }
UNIT(b_corner_a, FD) { corner(0, 0, 1, 0, 0.25); }
UNIT(b_corner_b, FD) { corner(1, 0, -1, 1, 0.625); }
UNIT(b_corner_c, FD) { corner(1, 1, 1, 0, 0.8125); }
UNIT(b_corner_d, FD) { corner(0, 1, -1, 1, 0.125); }
// only the level sets of a state are renormalised, each by itself
UNIT(b_renormalise, "renormalize_levelsets distance") {
  int n = 5; Mat u(n, V); for (int i = 0; i < n; i++) for (int v = 0; v < V; v++) u(i, v) = v < V - LSET ? in_any("u" + S(i) + "_" + S(v)) : double((i - 1 - v % 2) * 2 + 0.5); Mat u0 = u; iVec nX(1); nX << n; aVec dX(1); dX << 0.25; renormalize_levelsets(u, dX, nX);
  for (int v = 0; v < V; v++) { if (v < V - LSET) { for (int i = 0; i < n; i++) eq(u(i, v), u0(i, v), "state is kept[" + S(i) + "," + S(v) + "]"); continue; } Vec f = u0.col(v); Vec d = distance(f, dX, nX); for (int i = 0; i < n; i++) eq(u(i, v), d(i), "level set becomes its distance[" + S(i) + "," + S(v) + "]"); }
}
UNIT(b_indicator3, "material_indicator distance") {
  if (LSET != 2) return; std::vector<int> mi = {0, 0, 1, 1, 1, 2, 2, 2}; int n = mi.size(); for (int mat = 0; mat < 3; mat++) { Mat u(n, V); for (int i = 0; i < n; i++) for (int v = 0; v < V; v++) u(i, v) = v < V - 2 ? in_any("u" + S(i) + "_" + S(v)) : v == V - 2 ? double(i) - 1.75 : double(i) - 4.375; Mat u0 = u; Vec f(n); iVec nX(1); nX << n; aVec dX(1); dX << 1; material_indicator(f, u, mat, 3, dX, nX);
    for (int i = 0; i < n; i++) { double w = mat == 0 ? i - 1.75 : mat == 2 ? 4.375 - i : (i < 3 || (i == 3 && false) ? 1.75 - i : i - 4.375); if (mat == 1) { double a = 1.75 - i, b = i - 4.375; w = a > b ? a : b; } eq(f(i), w, "distance to the material, negative inside: material " + S(mat) + "[" + S(i) + "]"); if (mi[i] == mat) gt(0, f(i), "negative inside" + S(i)); else gt(f(i), 0, "positive outside" + S(i)); } eqm(u, u0, "state is not changed"); }
}
// the queue hands out the smallest entry
#define FH "heap push pop set peek empty _siftUp _siftDown"
static void order(int n, int change, int pops, const std::string &t) {
  heap q(n, false); std::vector<double> v(n); std::vector<int> id(n); for (int i = 0; i < n; i++) { v[i] = in_any("v" + S(i)); id[i] = q.push(10 * i + 3, v[i]); ensure(id[i] == i, "entries are numbered" + t); }
  std::vector<bool> out(n, false); double last = 0; for (int p = 0; p < n; p++) { if (p == pops) { for (int i = 0; i < n; i++) if (!out[(i + change) % n]) { int k = (i + change) % n; v[k] = in_any("w"); q.set(id[k], v[k]); break; } }
    ensure(!q.empty(), "not empty" + t); double top = q.peek(), val; int ad; q.pop(&ad, &val); int k = (ad - 3) / 10; bool fresh = (ad - 3) % 10 == 0 && k >= 0 && k < n && !out[k]; ensure(fresh, "every entry comes out once" + t); if (!fresh) return; out[k] = true; eq(val, v[k], "with its value" + t); eq(top, val, "peek shows what pop returns" + t); for (int i = 0; i < n; i++) if (!out[i]) ge(v[i], val, "smallest first" + t); last = val; }
  ensure(q.empty(), "empty at the end" + t); (void)last;
}
UNIT(b_queue3, FH) { order(3, 0, 9, " (3 entries)"); }
UNIT(b_queue4, FH) { order(4, 0, 9, " (4 entries)"); }
#define HS(a, b, c) UNIT(b_queue##a##_##b##c, FH) { order(a, b, c, " (" #a " entries, entry " #b " changed after " #c ")"); }
HS(3, 0, 0) HS(3, 1, 0) HS(3, 2, 0) HS(3, 1, 1) HS(4, 0, 0) HS(4, 3, 0) HS(4, 2, 1)
UNIT(b_queue_many, FH) { for (int s = 0; s < 40; s++) { int n = 12; heap q(n, false); std::vector<int> v(n); for (int i = 0; i < n; i++) { v[i] = (i * 37 + s * 101 + i * i * s) % 23; q.push(i, v[i]); } for (int c = 0; c < 6; c++) { int k = (c * 5 + s) % n; v[k] = (c * 31 + s * 17) % 29; q.set(k, v[k]); } std::vector<bool> out(n, false); bool ok = true; for (int p = 0; p < n; p++) { int ad; double val; q.pop(&ad, &val); if (ad < 0 || ad >= n || out[ad]) { ok = false; break; } out[ad] = true; if (!(val == v[ad])) ok = false; for (int i = 0; i < n; i++) if (!out[i] && v[i] < v[ad]) ok = false; } ensure(ok && q.empty(), "twelve entries, six changes: smallest first " + S(s)); } }

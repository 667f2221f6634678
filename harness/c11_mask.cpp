// The extended mask: active cells and their face neighbours.
#include "etc/globals.h"
#include "etc/grid.h"
#include "h.h"
static void two(int nx, int ny, int bits) {
  bVec m(nx * ny), mb((nx + 2) * (ny + 2)); for (int k = 0; k < nx * ny; k++) m(k) = bits >> k & 1; for (int k = 0; k < mb.size(); k++) mb(k) = (k * 7 + bits) % 3 == 0;
  bVec m0 = m; iVec nX(2); nX << nx, ny; extend_mask(m, mb, nX); std::string s = " " + S(nx) + "x" + S(ny) + " mask " + S(bits);
  auto act = [&](int i, int j) { return i >= 0 && j >= 0 && i < nx && j < ny && m0(i * ny + j); };
  auto get = [&](int i, int j) -> bool { return mb((i + 1) * (ny + 2) + j + 1); };
  bool ok = true, gh = true, co = true, far = true;
  for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { bool w = act(i, j) || act(i - 1, j) || act(i + 1, j) || act(i, j - 1) || act(i, j + 1); if (get(i, j) != w) ok = false; if (act(i, j) && !(get(i - 1, j) && get(i + 1, j) && get(i, j - 1) && get(i, j + 1))) gh = false; }
  for (int i = 0; i < nx; i++) { if (get(i, -1) && !act(i, 0)) far = false; if (get(i, ny) && !act(i, ny - 1)) far = false; }
  for (int j = 0; j < ny; j++) { if (get(-1, j) && !act(0, j)) far = false; if (get(nx, j) && !act(nx - 1, j)) far = false; }
  if (get(-1, -1) || get(-1, ny) || get(nx, -1) || get(nx, ny)) co = false;
  ensure(ok, "a cell is marked iff it or a face neighbour is active" + s); ensure(gh, "every face neighbour of an active cell is marked" + s); ensure(far, "a ghost cell is marked only next to an active cell" + s); ensure(co, "corner ghosts are not marked" + s);
  bool same = true; for (int k = 0; k < nx * ny; k++) if (m(k) != m0(k)) same = false; ensure(same, "mask is not changed" + s);
}
static void one(int nx, int bits) {
  bVec m(nx), mb(nx + 2); for (int k = 0; k < nx; k++) m(k) = bits >> k & 1; for (int k = 0; k < nx + 2; k++) mb(k) = (k * 5 + bits) % 3 == 0; bVec m0 = m; iVec nX(1); nX << nx; extend_mask(m, mb, nX); std::string s = " " + S(nx) + " mask " + S(bits);
  auto act = [&](int i) { return i >= 0 && i < nx && m0(i); };
  bool ok = true, gh = true, far = true; for (int i = 0; i < nx; i++) { if ((bool)mb(i + 1) != (act(i) || act(i - 1) || act(i + 1))) ok = false; if (act(i) && !(mb(i) && mb(i + 2))) gh = false; }
  if (mb(0) && !act(0) && !act(1)) far = false; if (mb(nx + 1) && !act(nx - 1) && !act(nx - 2)) far = false;
  ensure(ok, "a cell is marked iff it or a neighbour is active" + s); ensure(gh, "every neighbour of an active cell is marked" + s); ensure(far, "a ghost cell is marked only near an active cell" + s);
  bool same = true; for (int k = 0; k < nx; k++) if (m(k) != m0(k)) same = false; ensure(same, "mask is not changed" + s);
}
UNIT(b_mask1, "extend_mask") { for (int n = 1; n <= 7; n++) for (int b = 0; b < (1 << n); b++) one(n, b); }
#define U2(a, c) UNIT(b_mask2_##a##c, "extend_mask") { for (int b = 0; b < (1 << (a * c)); b++) two(a, c, b); }
U2(1, 1) U2(1, 2) U2(2, 1) U2(2, 2) U2(1, 4) U2(4, 1) U2(2, 3) U2(3, 2) U2(3, 3) U2(2, 4) U2(4, 2)
UNIT(b_mask2_large, "extend_mask") { for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) two(5, 4, 1 << (i * 4 + j)); for (int k = 0; k < 200; k++) two(4, 5, (k * 7919 + 13) % (1 << 20)); }
UNIT(b_dims, "extended_dimensions") { for (int e = 0; e < 4; e++) for (int a = 1; a < 6; a++) { iVec n(1); n << a; ensure(extended_dimensions(n, e) == a + 2 * e, "cells of a line"); for (int b = 1; b < 6; b++) { iVec m(2); m << a, b; ensure(extended_dimensions(m, e) == (a + 2 * e) * (b + 2 * e), "cells of a plane"); } } }

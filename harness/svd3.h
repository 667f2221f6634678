// 3x3 matrices with a known singular value decomposition: every A = U diag(s) V^T, U and V orthogonal, given by quaternions.
#pragma once
#include "gpr.h"
struct Svd3 { Mat3_3 A, U, V; Vec3 s; };
inline Mat3_3 rotation(const std::string &n) {
  double a = in_any(n + "a"), b = in_any(n + "b"), c = in_any(n + "c"), d = in_any(n + "d"), q = a * a + b * b + c * c + d * d; req_gt(q, 0); Mat3_3 R;
  R << (a * a + b * b - c * c - d * d) / q, 2 * (b * c - a * d) / q, 2 * (b * d + a * c) / q, 2 * (b * c + a * d) / q, (a * a - b * b + c * c - d * d) / q, 2 * (c * d - a * b) / q, 2 * (b * d - a * c) / q, 2 * (c * d + a * b) / q, (a * a - b * b - c * c + d * d) / q;
  return R;
}
// mirrored: both factors have determinant -1 (the library may return either)
inline Svd3 make_svd(const std::string &n, bool mirrored) {
  Svd3 r; r.U = rotation(n + "U"); r.V = rotation(n + "V"); if (mirrored) { r.U = -r.U; r.V = -r.V; }
  double s2 = in_pos(n + "s2"), s1 = in_pos(n + "s1"), s0 = in_pos(n + "s0"); if (is_symbolic()) { req_ge(s1, s2); req_ge(s0, s1); } r.s << s0, s1, s2;
  Mat3_3 D = Mat3_3::Zero(); for (int i = 0; i < 3; i++) D(i, i) = r.s(i); Mat3_3 T = D * r.V.transpose(); r.A = r.U * T;
#ifdef SYMBOLIC
  se::register_svd(r.A, r.U, r.s, r.V);
#endif
  return r;
}

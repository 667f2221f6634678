// The frame of the interface: its first axis is the normal, and turning a state into it and back changes nothing.
#include "gpr.h"
#include "system/multi/rotations.h"
#include "system/functions/vectors.h"
static void frame(const Vec &n, const std::string &t) {
  Vec m = n; Mat3_3 R = rotation_matrix(m); Vec3 e = Vec3::Zero(); for (int i = 0; i < n.size(); i++) e(i) = n(i); Vec3 x = R * e; for (int i = 0; i < 3; i++) eq(x(i), i == 0 ? 1 : 0, t + "normal becomes the first axis[" + S(i) + "]");
  Mat3_3 T = R.transpose(), I = R * T; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) eq(I(i, j), i == j ? 1 : 0, t + "orthogonal[" + S(i) + "," + S(j) + "]"); eq(R.determinant() * R.determinant(), 1, t + "determinant");
}
UNIT(frame_1d, "rotation_matrix") { for (int s : {1, -1}) { Vec n(1); n(0) = double(s); frame(n, "1d " + S(s) + " "); } }
UNIT(frame_2d, "rotation_matrix") { double t = in_any("t"); Vec n(2); n(0) = (1 - t * t) / (1 + t * t); n(1) = 2 * t / (1 + t * t); frame(n, "2d "); }
UNIT(frame_2d_back, "rotation_matrix") { Vec n(2); n(0) = -1.; n(1) = 0.; frame(n, "2d -x "); }
UNIT(frame_3d, "rotation_matrix") { double s = in_any("s"), t = in_any("t"), q = 1 + s * s + t * t; Vec n(3); n(0) = (1 - s * s - t * t) / q; n(1) = 2 * s / q; n(2) = 2 * t / q; frame(n, "3d "); }
UNIT(turn, "rotate_tensors") {
  VecV Q = make_Q(), P = Q; Mat3_3 R = make_A("R"); Mat3_3 Rc = R; rotate_tensors(P, Rc); Mat3_3 A, RT = R.transpose(); for (int i = 0; i < 9; i++) A(i / 3, i % 3) = Q(5 + i); Mat3_3 B = R * A, C = B * RT; Vec3 v, j; for (int i = 0; i < 3; i++) v(i) = Q(2 + i); Vec3 w = R * v; if (THERMAL) for (int i = 0; i < 3; i++) j(i) = Q(14 + i); Vec3 k; if (THERMAL) k = R * j;
  for (int i = 0; i < V; i++) eq(P(i), i >= 2 && i < 5 ? w(i - 2) : i >= 5 && i < 14 ? C((i - 5) / 3, (i - 5) % 3) : THERMAL && i >= 14 && i < 17 ? k(i - 14) : double(Q(i)), "turned[" + S(i) + "]");
}

// What filling ghost cells sees of the interface state: an arbitrary function of both states, both materials, the step and the normal.
#include "gpr.h"
#include "system/multi/riemann.h"
VecV left_star_state(VecV QL, VecV QR, Par &L, Par &R, double dt, Vecr n) {
  std::vector<double> a{L.ρ0, R.ρ0, dt}; for (int i = 0; i < V; i++) { a.push_back(QL(i)); a.push_back(QR(i)); } for (int i = 0; i < n.size(); i++) a.push_back(n(i));
  double h = any_fn("iface", a); VecV r; for (int i = 0; i < V; i++) r(i) = any_fn("s" + S(i), {h}); return r;
}

// The time loop: what one step does, in order, for every material; when it stops; which states it returns.
#include "gpr.h"
#include "etc/grid.h"
#include "multi/fill.h"
#include "solvers/iterator.h"
#include "solvers/steppers.h"
#include "solvers/utils.h"
#include "contract_iterator.h"
struct Case { int nd; bool split, half, stiff; int vac; int contort; int nan_at; };
static void run(const std::vector<real_double> &dts, real_double tf_, Case c, const std::string &name) {
  std::vector<Par> P; for (int m = 0; m < 3; m++) { P.push_back(make_par_r(STIFFENED_GAS, false, "_" + S(m))); if (m == c.vac) P[m].EOS = VACUUM; }
  iVec nX(c.nd), bt(2 * c.nd); aVec dX(c.nd); Vec dXv(c.nd); int nc = 1; for (int d = 0; d < c.nd; d++) { nX(d) = 2 - d; nc *= nX(d); dX(d) = in_pos("dx" + S(d)); dXv(d) = dX(d); bt(2 * d) = 1 + d; bt(2 * d + 1) = 3 - d; }
  Vec u(nc * V); for (int i = 0; i < u.size(); i++) u(i) = i % V == 0 ? in_pos("u" + S(i)) : in_any("u" + S(i)); if (MULTI) for (int k = 0; k < nc; k++) u(k * V + mV) = 0; Vec u0 = u; double CFL = in_pos("CFL"), tol = in_pos("tol"), tf = tf_; int flux_ = 2;
  auto script = [&] { SC = Script(); SC.dt = dts; SC.contort = c.contort; SC.nan_at = c.nan_at; };
  script(); auto r = iterator(u, tf, nX, dX, CFL, bt, c.split, c.half, c.stiff, flux_, P, tol); auto seen = SC.seen, tested = SC.tested; int steps = SC.steps;
  // the loop as it is specified
  script(); std::vector<Vec> snap(100); std::vector<bool> set(100, false); Vec w = u0, wprev; std::vector<Vec> g(3, u0); std::vector<bVec> m(3, bVec::Ones(nc)); Vec ub(extended_dimensions(nX, N) * V); bVec mb(extended_dimensions(nX, 1)); double dt = 0; real_double t = 0; int n = 0, k = 0; bool nan = false;
  while (t < tf_ && !nan) {
    wprev = w; fill_ghost_cells(g, m, w, nX, dX, dt, P); dt = timestep(g, m, dX, CFL, double(t), tf, n, P, 3); real_double d = (size_t)SC.seen.size() < dts.size() ? dts[SC.seen.size() - 1] : tf_ - t;
    for (int i = 0; i < 3; i++) if (P[i].EOS > -1) { boundaries(g[i], ub, nX, bt); extend_mask(m[i], mb, nX); if (c.split) split_stepper_para(g[i], ub, nX, dt, dXv, c.half, flux_, P[i], mb); else ader_stepper_para(g[i], ub, nX, dt, dXv, c.stiff, flux_, P[i], mb); }
    make_u(w, g, m, P); if (MULTI) for (int q = 0; q < nc; q++) { double y = w(q * V + mV); if (w(q * V) < y) y = w(q * V); if (y < 0) y = 0; w(q * V + mV) = y; }
    t += d; n++; renorm_distortion(w, P); if (n % 10 == 0 && ROTATE_DISTORTION) rotate_distortion(w, P); if (contorted(w, tol)) reset_distortion(w, P);
    for (int i = 0; i < w.size(); i++) nan |= std::isnan(w(i));
    if (t * 100 >= (k + 1) * tf_) { snap[k] = w; set[k] = true; k++; }
    if (nan) { snap[std::min(k, 98)] = wprev; set[std::min(k, 98)] = true; snap[std::min(k + 1, 99)] = w; set[std::min(k + 1, 99)] = true; }
  }
  if (!nan) { snap[99] = w; set[99] = true; }
  ensure(r.size() == 100, name + ": a hundred snapshots"); ensure(steps == n, name + ": number of steps"); ensure(seen.size() == SC.seen.size() && tested.size() == SC.tested.size(), name + ": one step size and one contortion test per step");
  for (size_t i = 0; i < seen.size() && i < SC.seen.size(); i++) eq(seen[i], SC.seen[i], name + ": what the step size is computed from");
  for (size_t i = 0; i < tested.size() && i < SC.tested.size(); i++) eq(tested[i], SC.tested[i], name + ": what the contortion test looks at");
  for (int s = 0; s < 100 && s < (int)r.size(); s++) { if (!set[s]) { ensure(r[s].size() == 0, name + ": nothing stored in " + S(s)); continue; } ensure(r[s].size() == u0.size(), name + ": stored " + S(s)); if (r[s].size() == u0.size()) for (int i = 0; i < u0.size(); i++) eq(r[s](i), snap[s](i), name + ": snapshot " + S(s)); }
  for (int i = 0; i < u0.size(); i++) eq(u(i), w(i), name + ": state left in place");
}
#define F "iterator limit_concentration"
static const std::vector<real_double> EVEN4 = {0.25, 0.25, 0.25, 0.25};
UNIT(b_split, F) { run({0.25, 0.5, 0.25}, 1, {1, true, true, false, -1, 99, 0}, "split"); run({0.25, 0.5}, 1, {2, true, false, true, -1, 1, 0}, "split, no half step"); }
UNIT(b_ader, F) { run({0.25, 0.5, 0.25}, 1, {2, false, false, true, -1, 2, 0}, "ader, stiff"); run({0.5}, 1, {1, false, true, false, -1, 0, 0}, "ader"); }
UNIT(b_vacuum, F) { for (int v = 0; v < 3; v++) run({0.5, 0.25}, 1, {1, v == 1, true, false, v, 1, 0}, "vacuum " + S(v)); }
UNIT(b_fine_steps, F) { std::vector<real_double> d(40, 0.0078125); run(d, 0.3125, {1, true, true, false, 1, 99, 0}, "several snapshots per step"); std::vector<real_double> e(24, 0.03125); run(e, 64, {1, false, true, true, 1, 2, 0}, "several steps per snapshot"); }
UNIT(b_all_snapshots, F) { std::vector<real_double> d(128, 0.0078125); run(d, 1, {1, true, true, false, 1, 99, 0}, "a hundred snapshots"); }
UNIT(b_single_step, F) { run({1.}, 1, {1, true, true, false, 1, 99, 0}, "one step"); }
UNIT(b_no_time, F) { run({1.}, 0, {1, true, true, false, 1, 99, 0}, "no time to go"); }
UNIT(b_nan, F) { run(EVEN4, 1, {1, true, true, false, 1, 99, 2}, "not a number in step 2"); run({0.5}, 1, {1, false, true, false, 1, 99, 1}, "not a number at once"); run(EVEN4, 1, {1, true, true, false, 1, 99, 4}, "not a number in the last step"); }
UNIT(b_nan_late, F) { std::vector<real_double> d(128, 0.0078125); for (int k : {98, 99, 100, 101, 127, 128}) run(d, 1, {1, true, true, false, 1, 99, k}, "not a number in step " + S(k)); }

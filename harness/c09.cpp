// C09: a rejected call leaves the solver exactly as it was.
#include "reject.hpp"
static std::string snap_diff(Osqp& a, Osqp& b) {
  Result x = a.get(), y = b.get(); std::string d = diff_results(x, y, 0, 0); if (strcmp(x.info.status, y.info.status)) d += "status text; "; d += settings_diff(*a.s->settings, *b.s->settings, true); return d;
}
// twins: one receives the rejected calls, the other does not
PROPERTY(C09, twins, 3, "at least one call was rejected and the solver was used again afterwards") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); if (s.chance(1, 6)) st.allocate_solution = 0; st.max_iter = std::min((int)st.max_iter, 600); st.verbose = s.chance(1, 4); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) st.adaptive_rho_interval = 10;
  log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st);
  // retrieving the solution from an infeasible solver without storage restarts it: compare through get() on both sides alike
  OpOpt oo; oo.so = so; oo.wSolve = 5; int k = tail_len(s, 2, 8); bool rej = false, used = false;
  for (int i = 0; i < k; i++) {
    int nb = s.range(0, 2);
    for (int j = 0; j < nb; j++) { Bad bad = gen_bad(s, p, *a.s->settings); c.log("rejected call: %s", bad.what.c_str()); if (bad.op.k == O_VEC) log_op(c, bad.op); int f = apply_bad(a, bad); CHECK(c, f != 0, "reject:accepted", "a call with %s returned 0", bad.what.c_str()); rej = true; c.label("bad:" + bad.what.substr(0, 24));
      std::string d = snap_diff(a, b); CHECK(c, d.empty(), "reject:state", "after a call with %s (returned %d): %s", bad.what.c_str(), f, d.c_str()); }
    Op op = gen_op(s, p, st, oo); log_op(c, op); int fa = apply_op(a, op), fb = apply_op(b, op); CHECK(c, fa == fb, "reject:later-code", "%s returned %d after rejected calls, %d without", op_name(op.k), fa, fb);
    if (fa == 0 || op.k == O_SOLVE) model_op(p, op); if (rej) used = true; std::string d = snap_diff(a, b); CHECK(c, d.empty(), "reject:later", "after %s following rejected calls: %s", op_name(op.k), d.c_str());
  }
  osqp_solve(a.s); osqp_solve(b.s); std::string d = snap_diff(a, b); CHECK(c, d.empty(), "reject:later", "final solve after rejected calls: %s", d.c_str());
  if (rej && used) c.nontrivial();
}
// the data in force after a rejected call is the old data: judged by the model, not by a second solver
PROPERTY(C09, same_problem, 1, "the solve after the rejected call ended with a definite status judged on the old data") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.scaledTerm = false; OSQPSettings st = gen_settings(s, so); if (!st.check_termination) st.check_termination = 10; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  if (s.chance(1, 2)) q.run();
  for (int j = s.range(1, 3); j > 0; j--) { Bad bad = gen_bad(s, p, *q.s->settings); c.log("rejected call: %s", bad.what.c_str()); int f = apply_bad(q, bad); CHECK(c, f != 0, "reject:accepted", "a call with %s returned 0", bad.what.c_str()); if (s.chance(1, 3)) { Op v = gen_vec(s, p, true); if (apply_op(q, v) == 0) model_op(p, v); } }
  Result a = q.run(); bool j = false; c.label(std::string("status:") + st_name(a.st()));
  if (st_solved(a.st())) j = check_solved(c, p, q, a); else if (st_pinf(a.st())) j = check_pinf(c, p, q, a); else if (st_dinf(a.st())) j = check_dinf(c, p, q, a);
  if (st_hassol(a.st())) check_info(c, p, q, a);
  if (j) c.nontrivial();
}

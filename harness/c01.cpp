// C01: status 'solved' is backed by the documented residual and gap criteria on the caller's data.
#include "model.hpp"
#include "checks.hpp"

PROPERTY(C01, setup_solve, 3, "the solve ended solved or solved inaccurate with unscaled criteria and a residual tolerance below the size of the data") {
  GenOpt o; Prob p = s.chance(1, 8) ? gen_any(s, [] { GenOpt g; g.nmax = 25; g.mmax = 30; return g; }()) : gen_any(s, o);
  SetOpt so; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st);
  Osqp q; if (q.setup(p, st)) c.discard();
  int solves = s.range(1, 2);
  for (int k = 0; k < solves; k++) {
    if (k) { OSQPSettings t = gen_settings(s, so); if (s.chance(1, 2)) { log_settings(c, t); if (osqp_update_settings(q.s, &t)) c.discard(); } if (s.chance(1, 2)) { for (auto& v : p.q) v += (OSQPFloat)(0.5 * s.range(-2, 2)); q.upd_q(p.q); } }
    if (s.chance(1, 8)) { OSQPSettings t = *q.s->settings; static const double tl[] = {1e-5, 1e-4, 1e-3}; t.time_limit = (OSQPFloat)tl[s.draw(3)]; osqp_update_settings(q.s, &t); c.log("time limit %g", (double)t.time_limit); }
    Result r = q.run();
    c.log("solve %d: status %s iter %d", k, st_name(r.st()), (int)r.info.iter);
    c.label(std::string("status:") + st_name(r.st()));
    if (st_solved(r.st())) { if (check_solved(c, p, q, r)) c.nontrivial(); }
  }
}
// long runs with polishing: residuals already tiny, wrong active sets, degenerate rows
PROPERTY(C01, polished, 1, "polishing was attempted on a solved problem") {
  GenOpt o; Prob p = s.chance(1, 3) ? gen_lp(s, o) : s.chance(1, 3) ? gen_feas(s, o) : gen_kkt(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.polishing = 1; st.max_iter = s.chance(1, 2) ? s.range(100, 8000) : s.range(1, 200); if (s.chance(1, 2)) st.check_termination = s.chance(1, 2) ? 0 : 1; static const double k[] = {1e-3, 1e-6, 1e-8, 0.1}; st.eps_abs = (OSQPFloat)k[s.draw(4)]; st.eps_rel = (OSQPFloat)k[s.draw(4)];
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  for (int k = 0; k < 2; k++) { Result r = q.run(); c.log("solve %d: status %s iter %d polish %d", k, st_name(r.st()), (int)r.info.iter, (int)r.info.status_polish); if (st_solved(r.st())) check_solved(c, p, q, r); if (r.info.status_polish) c.nontrivial(); c.label(r.info.status_polish == 1 ? "polish:success" : r.info.status_polish == -1 ? "polish:failed" : "polish:other"); if (s.chance(1, 2)) break; }
}

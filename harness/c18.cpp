// C18: the direct and the indirect linear system solver give the same answers.
#include "opt.hpp"
// With conjugate gradients run to their smallest tolerance, every ADMM iteration is the same up to that tolerance:
// both solvers are run through one history and compared after every solve, converged or not.
PROPERTY(C18, lockstep, 3, "at least two solves compared, one of them after an update, with a constraint row") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = true; Prob p = s.chance(2, 3) ? gen_kkt(s, o) : gen_feas(s, o);
  OSQPSettings st = defaults(); st.adaptive_rho = 0; if (s.chance(1, 2)) st.rho_is_vec = 0; static const double rh[] = {0.1, 1, 0.02, 5, 5e-4}; st.rho = (OSQPFloat)rh[s.draw(5)]; static const int sc[] = {10, 0, 1, 3}; st.scaling = sc[s.draw(4)]; static const double sg[] = {1e-6, 1e-2, 0.5}; st.sigma = (OSQPFloat)sg[s.draw(3)]; static const double al[] = {1.6, 1.0, 1.8, 0.8}; st.alpha = (OSQPFloat)al[s.draw(4)];
  st.check_termination = 0; st.max_iter = s.range(1, 60); st.cg_max_iter = 500; st.cg_tol_fraction = (OSQPFloat)1e-10; st.cg_tol_reduction = s.range(1, 20); if (s.chance(1, 2)) st.cg_precond = OSQP_NO_PRECONDITIONER; if (s.chance(1, 3)) st.check_dualgap = 0; if (s.chance(1, 4)) st.warm_starting = 0;
  log_prob(c, p); log_settings(c, st); OSQPSettings t = st; t.linsys_solver = OSQP_INDIRECT_SOLVER; Osqp a, b; int fa = a.setup(p, st), fb = b.setup(p, t); CHECK(c, fa == 0 && fb == 0, "linsys:setup", "setup returned %d (direct) and %d (indirect)", fa, fb);
  int k = s.range(1, 5), done = 0; bool upd = false; double acc = 1e-6; V cx(p.n, 0), cy(p.m, 0);
  for (int i = 0; i < k; i++) {
    if (i) { int z = s.range(0, 5); Op op; if (z < 2) op = gen_vec(s, p, true); else if (z == 2) op = gen_mat(s, p, true); else if (z == 3) { op.k = O_RHO; op.rho = rh[s.draw(5)]; } else if (z == 4) { op.k = O_SET; op.st = *a.s->settings; op.st.alpha = (OSQPFloat)al[s.draw(4)]; op.st.cg_precond = s.chance(1, 2) ? OSQP_NO_PRECONDITIONER : OSQP_DIAGONAL_PRECONDITIONER; op.st.max_iter = s.range(1, 60); op.st.check_termination = s.chance(1, 3) ? 25 : 0; } else op = gen_warm(s, p);
      if (op.k == O_WARM) { for (auto& v : op.x) v = std::min((OSQPFloat)10, std::max((OSQPFloat)-10, v)); for (auto& v : op.y) v = std::min((OSQPFloat)10, std::max((OSQPFloat)-10, v)); }
      log_op(c, op); if (op.k == O_MAT && op.hP) { Prob n = p; model_op(n, op); if (min_eig(denseSym(n.P), n.n) < 0.02) continue; }
      int ca = apply_op(a, op), cb = apply_op(b, op); CHECK(c, ca == cb, "linsys:return", "%s returned %d (direct) and %d (indirect)", op_name(op.k), ca, cb); if (ca) return; model_op(p, op); upd = true; if (op.k == O_WARM) { if (op.hx) cx = op.x; if (op.hy) cy = op.y; } }
    { // a vanishing first right-hand side makes the indirect solver accept any start of its own in that iteration
      VL X = toL(cx), Y = toL(cy), z = mulA(p.A, X), w(p.m); for (int j = 0; j < p.m; j++) w[j] = (ld)a.s->settings->rho * z[j] - Y[j]; VL g = mulAt(p.A, w); ld R = 0; for (int j = 0; j < p.n; j++) R = std::max(R, fabsl((ld)st.sigma * X[j] - p.q[j] + g[j])); if (R < 1e-4L && ninf(X) > 0) { c.label("first-tolerance"); return; } }
    Result x = a.run(), y = b.run(); c.log("direct %s, indirect %s after %d/%d iterations", st_name(x.st()), st_name(y.st()), (int)x.info.iter, (int)y.info.iter);
    CHECK(c, x.flag == y.flag, "linsys:return", "osqp_solve returned %d (direct) and %d (indirect)", x.flag, y.flag);
    if (x.st() != y.st()) { c.label("status-at-threshold"); return; }
    if (!st_hassol(x.st())) { c.label(std::string("status:") + st_name(x.st())); return; }
    cx = x.x; cy = x.y; acc *= 4; double size = 1, E = 1; V D, EE, Di, Ei; double cc = 1, ci; if (peek_scaling(a.s, D, EE, Di, Ei, cc, ci)) for (auto v : EE) E = std::max(E, std::max((double)v / cc, 1.0 / (double)v)); for (auto v : x.x) size = std::max(size, fabs((double)v)); for (auto v : x.y) size = std::max(size, fabs((double)v));
    double lam = min_eig(denseSym(p.P), p.n); double tol = std::max(acc * size * E / std::min(1.0, lam + (st.scaling ? 0 : (double)st.sigma)) * std::sqrt((double)p.n) * (1 + 0.1 * (double)x.info.iter), 1e-9), toly = tol * std::max(1.0, (st.rho_is_vec ? 1e3 : 1.0) * (double)a.s->settings->rho); int at = 0;
    if (tol > 1e-2) { c.label("too-sensitive"); return; }
    CHECK(c, vclose(x.x, y.x, tol, tol, &at), "linsys:x", "after %d iterations x[%d] is %.12g (direct) and %.12g (indirect), allowed difference %g", (int)x.info.iter, at, (double)x.x[at], (double)y.x[at], tol);
    if (toly < 1) CHECK(c, vclose(x.y, y.y, toly, toly, &at), "linsys:y", "after %d iterations y[%d] is %.12g (direct) and %.12g (indirect), allowed difference %g", (int)x.info.iter, at, (double)x.y[at], (double)y.y[at], toly);
    done++;
  }
  if (done > 1 && upd && p.m) c.nontrivial();
}
// Whatever the tuning: definite outcomes agree, and solutions are the known one
PROPERTY(C18, outcome, 3, "both solvers reached a definite status") {
  GenOpt o; o.well = true; o.scaleRows = s.chance(1, 4); int cls = s.range(0, 4); o.pd = cls >= 2 || s.chance(1, 2); Prob p = cls <= 2 ? gen_kkt(s, o) : cls == 3 ? gen_pinf(s, o) : gen_dinf(s, o);
  SetOpt so; so.linsys = false; so.limits = false; so.scaledTerm = false; so.tol = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2) st.adaptive_rho = 1; st.max_iter = 10000; if (!st.check_termination) st.check_termination = 25; static const double e[] = {1e-3, 1e-4, 1e-5}; st.eps_abs = st.eps_rel = (OSQPFloat)e[s.draw(3)];
  log_prob(c, p); log_settings(c, st); OSQPSettings t = st; t.linsys_solver = OSQP_INDIRECT_SOLVER; Osqp a, b; int fa = a.setup(p, st), fb = b.setup(p, t); CHECK(c, fa == 0 && fb == 0, "linsys:setup", "setup returned %d (direct) and %d (indirect)", fa, fb);
  int k = s.range(1, 3);
  for (int i = 0; i < k; i++) {
    Prob w = p;
    if (i) { // the same problem again after an equivalent rewriting through updates (the optimum stays known)
      double g = 0.5 * s.range(1, 6); for (auto& v : p.P.x) v = (OSQPFloat)(v * g); for (auto& v : p.q) v = (OSQPFloat)(v * g); for (auto& v : p.ys) v *= g; int ca = 0, cb = 0; for (Osqp* z : {&a, &b}) { int f = (int)osqp_update_data_vec(z->s, p.q.data(), nullptr, nullptr); if (p.P.nnz()) f |= (int)osqp_update_data_mat(z->s, p.P.x.data(), nullptr, 0, nullptr, nullptr, 0); (z == &a ? ca : cb) = f; } c.log("cost multiplied by %g", g); CHECK(c, ca == cb, "linsys:return", "data updates returned %d (direct) and %d (indirect)", ca, cb); if (ca) return; }
    Result x = a.run(), y = b.run(); c.log("direct %s (%d), indirect %s (%d)", st_name(x.st()), (int)x.info.iter, st_name(y.st()), (int)y.info.iter); c.label(std::string(st_name(x.st())) + "/" + st_name(y.st()));
    auto cl = [](int z) { return st_solved(z) ? 1 : st_pinf(z) ? 2 : st_dinf(z) ? 3 : 0; }; int cx = cl(x.st()), cy = cl(y.st());
    for (int w2 = 0; w2 < 2; w2++) { Osqp& q = w2 ? b : a; Result& r = w2 ? y : x; if (st_solved(r.st())) { check_solved(c, p, q, r); if (p.hasOpt) check_opt(c, p, q, r); check_signs(c, p, q, r, rho_hi(q) * 1e3); } else if (st_pinf(r.st())) check_pinf(c, p, q, r); else if (st_dinf(r.st())) check_dinf(c, p, q, r); }
    if (!cx || !cy) continue;
    if (cx != cy && cls <= 2) { c.label("no-slack"); continue; }   // justified above: a certificate within its tolerance exists
    CHECK(c, cx == cy || p.kind == K_PINF || p.kind == K_DINF, "linsys:status", "direct: '%s', indirect: '%s'", x.info.status, y.info.status);
    c.nontrivial();
  }
}
// Strictly convex, well conditioned: the indirect solver decides them too, with the same answer
PROPERTY(C18, converges, 2, "both solved to within 1e-3 of the known optimum") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = true; Prob p = gen_kkt(s, o); OSQPSettings st = defaults(); st.eps_abs = st.eps_rel = (OSQPFloat)1e-5; st.max_iter = 50000; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-9; if (s.chance(1, 2)) st.rho_is_vec = 0; if (s.chance(1, 3)) st.scaling = s.range(0, 10); if (s.chance(1, 2)) st.cg_precond = OSQP_NO_PRECONDITIONER; if (s.chance(1, 3)) st.polishing = 1; if (s.chance(1, 3)) st.cg_max_iter = s.range(10, 60); if (s.chance(1, 4)) st.adaptive_rho = 0;
  log_prob(c, p); log_settings(c, st); OSQPSettings t = st; t.linsys_solver = OSQP_INDIRECT_SOLVER; Osqp a(p, st), b(p, t); Result x = a.run(), y = b.run(); c.log("direct %s (%d), indirect %s (%d)", st_name(x.st()), (int)x.info.iter, st_name(y.st()), (int)y.info.iter);
  if (x.st() != OSQP_SOLVED || x.info.iter > 5000) { c.label("hard"); return; }
  if (st_pinf(y.st()) || st_dinf(y.st())) { if (st_pinf(y.st())) check_pinf(c, p, b, y); else check_dinf(c, p, b, y); c.label("no-slack"); return; }
  CHECK(c, st_solved(y.st()), "linsys:undecided", "direct: solved after %d iterations, indirect: '%s' after %d", (int)x.info.iter, y.info.status, (int)y.info.iter);
  check_opt(c, p, a, x); check_opt(c, p, b, y); c.nontrivial();
}

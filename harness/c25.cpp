// C25: helper functions of the API are total and consistent.
#include "reject.hpp"
#include <memory>
static bool entries_ok(Ctx& c, const OSQPCscMatrix* M, int m, int n, const std::vector<double>& want, const char* what) {   // want: row-major dense, NAN where nothing may be stored
  CHECK(c, M->m == m && M->n == n && M->nz == -1, "helper:shape", "%s: %d x %d, nz %d instead of %d x %d", what, (int)M->m, (int)M->n, (int)M->nz, m, n);
  CHECK(c, M->p[0] == 0, "helper:pointers", "%s: first column pointer %d", what, (int)M->p[0]); std::vector<double> got((size_t)m * n, NAN); long cnt = 0;
  for (int j = 0; j < n; j++) { CHECK(c, M->p[j] <= M->p[j + 1], "helper:pointers", "%s: column pointers decrease at %d", what, j); for (OSQPInt k = M->p[j]; k < M->p[j + 1]; k++) { cnt++; CHECK(c, M->i[k] >= 0 && M->i[k] < m, "helper:rows", "%s: row index %d of %d", what, (int)M->i[k], m); double& g = got[(size_t)M->i[k] * n + j]; CHECK(c, std::isnan(g), "helper:duplicate", "%s: entry stored twice", what); g = M->x[k]; } }
  CHECK(c, M->nzmax >= cnt, "helper:nzmax", "%s: nzmax %d for %ld entries", what, (int)M->nzmax, cnt); for (size_t k = 0; k < got.size(); k++) CHECK(c, (std::isnan(got[k]) && std::isnan(want[k])) || got[k] == want[k], "helper:entry", "%s: entry (%zu,%zu) is %g instead of %g", what, k / n, k % n, got[k], want[k]); return true;
}
PROPERTY(C25, matrices, 2, "the matrix is not empty") {
  int m = s.range(0, 9), n = s.range(0, 9), w = s.range(0, 4); V d(10); for (auto& v : d) v = (OSQPFloat)(s.chance(1, 6) ? 0 : gval(s, false)); double a = s.chance(1, 5) ? 0 : gval(s, false); if (w == 1) n = m; c.log("constructor %d, %d x %d", w, m, n); vmem_reset(); OSQPCscMatrix* M = nullptr; std::vector<double> want((size_t)m * n, NAN); int k = std::min(m, n);
  switch (w) {
    case 0: M = OSQPCscMatrix_zeros(m, n); break; case 1: M = OSQPCscMatrix_identity(m); for (int i = 0; i < k; i++) want[(size_t)i * n + i] = 1; break; case 2: M = OSQPCscMatrix_diag_scalar(m, n, (OSQPFloat)a); for (int i = 0; i < k; i++) want[(size_t)i * n + i] = (OSQPFloat)a; break;
    case 3: { std::unique_ptr<OSQPFloat[]> v(new OSQPFloat[k ? k : 1]); for (int i = 0; i < k; i++) { v[i] = d[i]; want[(size_t)i * n + i] = d[i]; } M = OSQPCscMatrix_diag_vec(m, n, v.get()); break; }
    default: { Csc A = gen_A(s, m, std::max(n, 1), false); n = A.n; want.assign((size_t)m * n, NAN); for (int j = 0; j < n; j++) for (OSQPInt e = A.p[j]; e < A.p[j + 1]; e++) want[(size_t)A.i[e] * n + j] = A.x[e]; Csc B = A; M = OSQPCscMatrix_new(m, n, A.nnz(), A.x.data(), A.i.data(), A.p.data()); CHECK(c, M, "helper:missing", "no matrix"); CHECK(c, M->x == A.x.data() && M->i == A.i.data() && M->p == A.p.data() && !M->owned, "helper:wrap", "the arrays given are not the ones used"); entries_ok(c, M, m, n, want, "new"); OSQPCscMatrix_free(M); CHECK(c, A.x == B.x && A.i == B.i && A.p == B.p, "helper:wrap", "freeing the matrix touched the caller's arrays");
      OSQPCscMatrix T; memset((void*)&T, 0x5a, sizeof T); OSQPCscMatrix_set_data(&T, m, n, A.nnz(), A.x.data(), A.i.data(), A.p.data()); CHECK(c, !T.owned && T.nzmax == A.nnz(), "helper:set-data", "set_data leaves wrong fields"); entries_ok(c, &T, m, n, want, "set_data"); CHECK(c, vmem_live() == 0, "helper:leak", "%ld allocations left", vmem_live()); if (A.nnz()) c.nontrivial(); return; }
  }
  CHECK(c, M, "helper:missing", "constructor %d for %d x %d returned nothing", w, m, n); CHECK(c, M->owned, "helper:owner", "a constructed matrix does not own its arrays"); entries_ok(c, M, m, n, want, "constructor");
  // constructed matrices can be used in a problem
  if (n && w != 3 && !(w == 2 && m != n)) { Prob p; p.n = n; p.m = m; std::unique_ptr<OSQPCscMatrix, void (*)(OSQPCscMatrix*)> P(OSQPCscMatrix_identity(n), OSQPCscMatrix_free); V q(n, 1), l(m, (OSQPFloat)-0.5), u(m, (OSQPFloat)0.5); OSQPSettings st = defaults(); OSQPSolver* z = nullptr; int f = (int)osqp_setup(&z, P.get(), q.data(), M, l.data(), u.data(), m, n, &st); CHECK(c, f == 0, "helper:unusable", "a problem with a constructed matrix is refused with %d", f); OSQPInt gm = -7, gn = -7; osqp_get_dimensions(z, &gm, &gn); CHECK(c, gm == m && gn == n, "helper:dimensions", "dimensions %d, %d instead of %d, %d", (int)gm, (int)gn, m, n); osqp_solve(z); CHECK(c, z->info->status_val == OSQP_SOLVED, "helper:unusable", "status '%s'", z->info->status);
    for (int j = 0; j < n; j++) { bool row = w != 0 && j < std::min(m, n); double cf = w == 2 ? a : 1; double lim = row && cf != 0 ? 0.5 / fabs(cf) : 1e9, e = std::max(-1.0, -lim); CHECK(c, fabs((double)z->solution->x[j] - e) <= 0.01 * (1 + std::min(lim, 100.0)), "helper:unusable", "solution %g instead of %g", (double)z->solution->x[j], e); } osqp_cleanup(z); }
  OSQPCscMatrix_free(M); CHECK(c, vmem_live() == 0, "helper:leak", "%ld allocations left", vmem_live()); if (m && n) c.nontrivial();
}
PROPERTY(C25, constants, 1, "always") {
  OSQPSettings t; memset((void*)&t, s.range(0, 255), sizeof t); osqp_set_default_settings(&t); OSQPSettings* h = OSQPSettings_new(); CHECK(c, h, "helper:settings", "OSQPSettings_new returned nothing"); std::string d = settings_diff(t, *h); CHECK(c, d.empty(), "helper:settings", "two ways to get default settings differ: %s", d.c_str());
  auto eq = [&](const char* n, double got, double want) { CHECK(c, fabs(got - want) <= 1e-6 * fabs(want), "helper:default", "the default of %s is %g, documented %g", n, got, want); };
  eq("device", t.device, 0); eq("allocate_solution", t.allocate_solution, 1); eq("verbose", t.verbose, 1); eq("profiler_level", t.profiler_level, 0); eq("warm_starting", t.warm_starting, 1); eq("scaling", t.scaling, 10); eq("polishing", t.polishing, 0); eq("rho", t.rho, 0.1); eq("rho_is_vec", t.rho_is_vec, 1); eq("sigma", t.sigma, 1e-6); eq("alpha", t.alpha, 1.6); eq("cg_max_iter", t.cg_max_iter, 20); eq("cg_tol_reduction", t.cg_tol_reduction, 10); eq("cg_tol_fraction", t.cg_tol_fraction, 0.15); eq("cg_precond", t.cg_precond, OSQP_DIAGONAL_PRECONDITIONER); eq("adaptive_rho", t.adaptive_rho, 1); eq("adaptive_rho_fraction", t.adaptive_rho_fraction, 0.4); eq("adaptive_rho_tolerance", t.adaptive_rho_tolerance, 5); eq("max_iter", t.max_iter, 4000); eq("eps_abs", t.eps_abs, 1e-3); eq("eps_rel", t.eps_rel, 1e-3); eq("eps_prim_inf", t.eps_prim_inf, 1e-4); eq("eps_dual_inf", t.eps_dual_inf, 1e-4); eq("scaled_termination", t.scaled_termination, 0); eq("check_termination", t.check_termination, 25); eq("time_limit", t.time_limit, 1e10); eq("delta", t.delta, 1e-6); eq("polish_refine_iter", t.polish_refine_iter, 3); CHECK(c, t.linsys_solver == OSQP_DIRECT_SOLVER, "helper:default", "default linear solver %d", (int)t.linsys_solver); OSQPSettings_free(h);
  OSQPInt cap = osqp_capabilities(); CHECK(c, cap & OSQP_CAPABILITY_DIRECT_SOLVER, "helper:capabilities", "no direct solver among the capabilities"); CHECK(c, cap & OSQP_CAPABILITY_UPDATE_MATRICES, "helper:capabilities", "no matrix updates among the capabilities"); CHECK(c, cap == osqp_capabilities(), "helper:capabilities", "capabilities change");
  OSQPCodegenDefines g; memset((void*)&g, s.range(0, 255), sizeof g); osqp_set_default_codegen_defines(&g); OSQPCodegenDefines* gd = OSQPCodegenDefines_new(); CHECK(c, gd && !memcmp(gd, &g, sizeof g), "helper:codegen-defaults", "two ways to get default code generation options differ"); CHECK(c, g.embedded_mode == 1 && !g.float_type && !g.printing_enable && !g.profiling_enable && !g.interrupt_enable && !g.derivatives_enable, "helper:codegen-defaults", "unexpected default"); OSQPCodegenDefines_free(gd);
  const char* v = osqp_version(); CHECK(c, v && strlen(v) > 2 && strchr(v, '.'), "helper:version", "version text missing");
  // a capability advertised is one that works; one that is not is refused at setup
  Prob p = gen_kkt(s, GenOpt()); OSQPSettings st = defaults(); st.linsys_solver = s.chance(1, 2) ? OSQP_INDIRECT_SOLVER : OSQP_DIRECT_SOLVER; Osqp q; int f = q.setup(p, st); bool has = cap & (st.linsys_solver == OSQP_INDIRECT_SOLVER ? OSQP_CAPABILITY_INDIRECT_SOLVER : OSQP_CAPABILITY_DIRECT_SOLVER); CHECK(c, has == (f == 0), "helper:capabilities", "linear solver %d: capability %d, setup returned %d", (int)st.linsys_solver, (int)has, f); c.nontrivial();
}
PROPERTY(C25, errors, 1, "always") {
  OSQPInt code; switch (s.range(0, 3)) { case 0: code = s.range(-3, 20); break; case 1: code = s.range(-100000, 100000); break; case 2: code = (OSQPInt)(s.draw((uint64_t)1 << 62)) * (s.chance(1, 2) ? -1 : 1); break; default: { static const OSQPInt e[] = {std::numeric_limits<OSQPInt>::min(), std::numeric_limits<OSQPInt>::max(), 0, OSQP_LAST_ERROR_PLACE, -1, 1}; code = e[s.draw(6)]; } } c.log("code %lld", (long long)code);
  const char* t = osqp_error_message(code); CHECK(c, t && *t, "helper:error-text", "no text for error code %lld", (long long)code); size_t n = strlen(t); CHECK(c, n < 400, "helper:error-text", "text of length %zu", n); bool known = code > 0 && code < OSQP_LAST_ERROR_PLACE; bool unk = !!strstr(t, "nknown"); CHECK(c, known != unk || code == 0, "helper:error-text", "code %lld: '%s'", (long long)code, t);
  static const struct { int c; const char* w; } ex[] = {{OSQP_DATA_VALIDATION_ERROR, "data"}, {OSQP_SETTINGS_VALIDATION_ERROR, "ettings"}, {OSQP_LINSYS_SOLVER_INIT_ERROR, "inear system"}, {OSQP_NONCVX_ERROR, "non-convex"}, {OSQP_MEM_ALLOC_ERROR, "emory"}, {OSQP_WORKSPACE_NOT_INIT_ERROR, "workspace"}, {OSQP_ALGEBRA_LOAD_ERROR, "lgebra"}, {OSQP_FOPEN_ERROR, "file"}, {OSQP_CODEGEN_DEFINES_ERROR, "defines"}, {OSQP_FUNC_NOT_IMPLEMENTED, "not implemented"}}; for (auto& e : ex) CHECK(c, strstr(osqp_error_message(e.c), e.w), "helper:error-text", "code %d: '%s'", e.c, osqp_error_message(e.c)); c.nontrivial();
}
static std::string near_diff(const Result& a, const Result& b) { for (size_t i = 0; i < a.pc.size(); i++) if (!close(a.pc[i], b.pc[i], 1e-12, 1e-12)) return "certificate"; for (size_t i = 0; i < a.dc.size(); i++) if (!close(a.dc[i], b.dc[i], 1e-12, 1e-12)) return "certificate"; Result x = a; x.pc = b.pc; x.dc = b.dc; return diff_results(x, b, 0, 0); }
// Retrieving: a solver whose solution is retrieved at any time behaves as one that is left alone
PROPERTY(C25, retrieve, 4, "the solution was retrieved at least twice, once between other calls") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = std::min((int)st.max_iter, 1500); if (st.adaptive_rho == 2 && !st.adaptive_rho_interval) st.adaptive_rho_interval = 10; log_prob(c, p); log_settings(c, st); OSQPSettings t = st; t.allocate_solution = 0; Osqp a, b; if (a.setup(p, st)) c.discard(); bool other = s.chance(1, 2); CHECK(c, b.setup(p, other ? t : st) == 0, "get:setup", "setup fails without solution storage"); CHECK(c, (b.s->solution == nullptr) == other, "get:storage", "allocate_solution is %d and storage is %s", !other, b.s->solution ? "there" : "missing");
  int gets = 0; bool mid = false; auto grab = [&](Osqp& q) { std::unique_ptr<OSQPFloat[]> x(new OSQPFloat[q.n]), y(new OSQPFloat[q.m ? q.m : 1]), pa(new OSQPFloat[q.m ? q.m : 1]), d(new OSQPFloat[q.n]); OSQPSolution z; z.x = x.get(); z.y = y.get(); z.prim_inf_cert = pa.get(); z.dual_inf_cert = d.get(); int f = (int)osqp_get_solution(q.s, &z); CHECK(c, f == 0, "get:code", "osqp_get_solution returned %d", f); gets++; Result r; memcpy((void*)&r.info, q.s->info, sizeof r.info); r.x.assign(x.get(), x.get() + q.n); r.y.assign(y.get(), y.get() + q.m); r.pc.assign(pa.get(), pa.get() + q.m); r.dc.assign(d.get(), d.get() + q.n); return r; };
  OSQPInt gm = 0, gn = 0; osqp_get_dimensions(b.s, &gm, &gn); CHECK(c, gm == p.m && gn == p.n, "get:dimensions", "dimensions %d, %d", (int)gm, (int)gn); int k = s.range(1, 6); OpOpt oo; oo.so = so; oo.wGet = 0; Prob cur = p;
  for (int i = 0; i < k; i++) { Op op; if (i && i + 1 < k) op = gen_op(s, cur, st, oo); if (op.k == O_SET) op.st.max_iter = std::min((int)op.st.max_iter, 1500); log_op(c, op); vclk_virtual(1000 + i, 1e-6); int x = apply_op(a, op); if (s.chance(1, 2)) { grab(b); mid |= i > 0; c.log("retrieved before"); } vclk_virtual(1000 + i, 1e-6); int y = apply_op(b, op); CHECK(c, x == y, "get:disturb", "%s returned %d, and %d after the solution was retrieved", op_name(op.k), x, y); if (x) return; model_op(cur, op);
    if (op.k == O_SOLVE) { const OSQPInfo &ia = *a.s->info, &ib = *b.s->info; CHECK(c, ia.status_val == ib.status_val && ia.iter == ib.iter && same_float(ia.prim_res, ib.prim_res) && same_float(ia.dual_res, ib.dual_res), "get:disturb", "storing or retrieving the solution changes later solves: status %d after %d against %d after %d", (int)ia.status_val, (int)ia.iter, (int)ib.status_val, (int)ib.iter); }
    if (op.k == O_SOLVE && (i + 1 == k || s.chance(1, 2))) { Result ra = a.get(), rb = grab(b); rb.flag = ra.flag; std::string d = near_diff(ra, rb); CHECK(c, d.empty(), "get:solution", "the retrieved solution is not the stored one, or retrieving it earlier changed the solve: %s", d.c_str()); Result rc = grab(b); rc.flag = ra.flag; d = near_diff(rb, rc); CHECK(c, d.empty(), "get:repeat", "retrieving twice gives different results: %s", d.c_str()); c.label(std::string("status:") + st_name(ra.st())); } }
  if (gets > 1 && mid) c.nontrivial();
}

// C17: for every allocation of a history, the history with that allocation failing (alone, or with all later ones) ends in
// an error code, without a crash, a leak or a double release; memory available again, everything works as usual.
#include "hist.hpp"
namespace {
struct Hist { Prob p; OSQPSettings st; std::vector<Op> ops; };
struct Out { long failedCall = -1; int code = 0; long calls = 0; std::vector<Result> rs; };
}
static Result snap(Osqp& q, int code) { Result r; memset((void*)&r.info, 0, sizeof r.info); if (q.s && q.setup_flag == 0) r = q.get(); r.flag = code; return r; }
// runs until the call in which the injected failure happened; checks that call and what remains usable afterwards
static Out run(Ctx& c, const Hist& h, long k, bool sticky, const Out* ref) {
  Out o; vmem_reset(); vclk_virtual(1000.0, 1e-6); vmem_fail_at(k, sticky);
  { Osqp q; auto hit = [&]() { return vmem_failed() > 0; };
    int code = q.setup(h.p, h.st); o.calls++;
    if (hit()) { o.failedCall = 0; o.code = code; CHECK(c, code != 0, "oom:setup-succeeds", "setup returned 0 although allocation %ld failed", k); q.cleanup(); }
    else { CHECK(c, code == 0, "oom:setup-fails", "setup returned %d with memory available", code); o.rs.push_back(snap(q, code));
      for (size_t i = 0; i < h.ops.size(); i++) {
        code = apply_op(q, h.ops[i]); o.calls++;
        if (hit()) { o.failedCall = (long)i + 1; o.code = code;
          CHECK(c, code != 0, "oom:call-succeeds", "%s returned 0 although allocation %ld failed", op_name(h.ops[i].k), k);
          vmem_fail_at(0, 0); Result r = snap(q, code);       // the solver is still there: what a failed solve reports must be true, and it can be used again
          if (h.ops[i].k == O_SOLVE) {
            Prob cur = h.p; for (size_t j = 0; j < i; j++) model_op(cur, h.ops[j]);
            if (st_solved(r.st())) check_solved(c, cur, q, r);
            CHECK(c, r.info.status_polish != OSQP_POLISH_SUCCESS, "oom:polish-success", "polishing is reported successful although allocation %ld failed in it", k);
          }
          osqp_cold_start(q.s); int f = q.solve(); CHECK(c, f == 0 || f == OSQP_NONCVX_ERROR || r.st() == OSQP_NON_CVX, "oom:unusable", "with memory available again osqp_solve returns %d", f);
          break; }
        o.rs.push_back(snap(q, code)); } }
    vmem_fail_at(0, 0); }
  CHECK(c, vmem_live() == 0, "oom:leak", "allocation %ld%s failed in call %ld: %ld allocations (first of %zu bytes) are never released", k, sticky ? " and all later ones" : "", o.failedCall, vmem_live(), vmem_first_live_size());
  CHECK(c, vmem_bad() == 0, "oom:double-free", "allocation %ld%s failed in call %ld: %ld releases of memory that is not allocated", k, sticky ? " and all later ones" : "", o.failedCall, vmem_bad());
  (void)ref; return o;
}
PROPERTY(C17, enumerate, 4, "every allocation of a set-up and at least one solve is failed in turn") {
  Hist h; GenOpt g; g.nmax = 5; g.mmax = 6; h.p = gen_any(s, g); SetOpt so; so.timed = false; h.st = gen_settings(s, so); if (s.chance(1, 2)) h.st.polishing = 1; h.st.max_iter = std::min((int)h.st.max_iter, 300); if (s.chance(1, 6)) h.st.allocate_solution = 0;
  if (h.st.adaptive_rho == 2 && !h.st.adaptive_rho_interval) h.st.adaptive_rho_interval = 10;
  c.log("setup"); log_prob(c, h.p); log_settings(c, h.st);
  Op sv; h.ops.push_back(sv); Prob cur = h.p; OpOpt oo; oo.so = so; int k = s.range(0, 4); for (int i = 0; i < k; i++) { Op o = gen_op(s, cur, h.st, oo); if (o.k == O_SET) o.st.max_iter = std::min((int)o.st.max_iter, 300); log_op(c, o); model_op(cur, o); h.ops.push_back(o); if (o.k != O_SOLVE) h.ops.push_back(sv); }
  // reference run: which calls succeed without faults (valid updates can still be refused as numerically singular)
  vmem_reset(); vclk_virtual(1000.0, 1e-6); std::vector<Result> ref; long total;
  { Osqp q; vmem_fail_at(0, 0); int f = q.setup(h.p, h.st); if (f) c.discard(); ref.push_back(snap(q, 0)); std::vector<Op> good; for (auto& o : h.ops) { int code = apply_op(q, o); if (code) break; good.push_back(o); ref.push_back(snap(q, 0)); } h.ops = good; total = vmem_count(); }
  CHECK(c, vmem_live() == 0, "oom:leak", "%ld allocations survive cleanup without any fault", vmem_live());
  if (h.ops.empty()) c.discard();
  c.log("%ld allocations, each failed alone and with all later ones", total);
  bool solveHit = false; for (int sticky = 0; sticky < 2; sticky++) for (long j = 1; j <= total; j++) {
    Out o = run(c, h, j, sticky, nullptr); if (o.failedCall > 0) solveHit = true; if (o.failedCall < 0) CHECK(c, o.rs.size() == ref.size(), "oom:history", "the history ended early");
    for (size_t i = 0; i < o.rs.size() && i < ref.size(); i++) { std::string d = diff_results(ref[i], o.rs[i], 0, 0); CHECK(c, d.empty(), "oom:history", "result %zu before the failure differs: %s", i, d.c_str()); }
    if (j % 16 == 1) { Out again = run(c, h, 0, false, nullptr); for (size_t i = 0; i < again.rs.size(); i++) { std::string d = diff_results(ref[i], again.rs[i], 0, 0); CHECK(c, d.empty(), "oom:aftermath", "after a failed allocation %ld a new run gives other results: result %zu: %s", j, i, d.c_str()); } } }
  if (total > 20) c.nontrivial(); if (solveHit) c.label("failure-in-a-later-call"); c.label(h.st.linsys_solver == OSQP_DIRECT_SOLVER ? "direct" : "indirect");
}
PROPERTY(C17, helpers, 1, "a constructor with at least one allocation") {
  int m = s.range(0, 6), n = s.range(0, 6), w = s.range(0, 6); V d(8); for (auto& v : d) v = (OSQPFloat)gval(s, true); V x(5, 1); VI ii(5, 0), pp(7, 0); int mn = std::min(m, n); (void)mn;
  for (int k = 0; k <= 6; k++) for (int st = 0; st < 2; st++) { vmem_reset(); vmem_fail_at(k, st); void* r = nullptr;
    switch (w) { case 0: r = OSQPCscMatrix_zeros(m, n); break; case 1: r = OSQPCscMatrix_identity(m); break; case 2: r = OSQPCscMatrix_diag_scalar(m, n, 2); break; case 3: r = OSQPCscMatrix_diag_vec(m, n, d.data()); break; case 4: r = OSQPCscMatrix_new(5, 6, 0, x.data(), ii.data(), pp.data()); break; case 5: r = OSQPSettings_new(); break; case 6: r = OSQPCodegenDefines_new(); break; }
    bool hit = vmem_failed() > 0; vmem_fail_at(0, 0); bool empty = m == 0 || n == 0; CHECK(c, (hit || r) && (!hit || !r || empty), "oom:helper", "constructor %d (%d x %d): allocation %d %s, and the result is %s", w, m, n, k, hit ? "failed" : "did not fail", r ? "an object" : "missing");
    if (w < 5) { if (w == 4) { if (r) OSQPCscMatrix_free((OSQPCscMatrix*)r); } else OSQPCscMatrix_free((OSQPCscMatrix*)r); } else if (w == 5) OSQPSettings_free((OSQPSettings*)r); else OSQPCodegenDefines_free((OSQPCodegenDefines*)r);
    CHECK(c, vmem_live() == 0 && vmem_bad() == 0, "oom:helper-leak", "constructor %d (%d x %d), allocation %d failed: %ld blocks left, %ld bad releases", w, m, n, k, vmem_live(), vmem_bad()); if (hit) c.nontrivial(); }
  c.log("constructor %d, %d x %d", w, m, n);
}

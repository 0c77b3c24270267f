// C16: no API history causes a memory error, undefined behaviour or a leak, and nothing depends on uninitialised memory.
#include "reject.hpp"
#include <memory>
struct Step { int k; Op op; Bad bad; Prob p; OSQPSettings st; int arg; };
// whole histories are generated first, so that they can be executed twice
static std::vector<Step> gen_history(Src& s, Ctx& c) {
  std::vector<Step> h; bool have = false; Prob cur; OSQPSettings st = defaults(); int k = s.range(2, 14); SetOpt so; so.timed = true; OpOpt oo; oo.so = so;
  auto setup = [&](int kind) { Step t; t.k = 0; t.arg = kind; GenOpt o; if (s.chance(1, 10)) { o.nmax = 30; o.mmax = 40; } if (s.chance(1, 10)) { o.nmax = 1; o.mmax = 1; } t.p = gen_any(s, o); t.st = gen_settings(s, so); if (s.chance(1, 5)) t.st.allocate_solution = 0; if (t.st.adaptive_rho == 2 && s.chance(1, 2)) t.st.adaptive_rho_interval = 0; t.st.max_iter = std::min((int)t.st.max_iter, s.chance(1, 6) ? 2000 : 150); t.st.verbose = s.chance(1, 10); t.st.profiler_level = s.range(0, 2);
    if (kind == 1) { std::string w; break_setting(s, t.st, true, w); c.log("setup with invalid %s", w.c_str()); }
    else if (kind == 2) { for (int j = 0; j < t.p.n; j++) for (OSQPInt q = t.p.P.p[j]; q < t.p.P.p[j + 1]; q++) t.p.P.x[q] = -t.p.P.x[q] - (t.p.P.i[q] == j ? 1 : 0); c.log("setup with a nonconvex cost"); }
    else if (kind == 3) { if (t.p.m) { t.p.l[0] = 1; t.p.u[0] = 0; } c.log("setup with crossing bounds"); }
    else c.log("setup"); log_prob(c, t.p); log_settings(c, t.st); if (kind == 0) { cur = t.p; st = t.st; have = true; } else have = false; h.push_back(t); };
  for (int i = 0; i < k; i++) {
    if (!have) { int z = s.range(0, 9); if (z < 6) setup(0); else if (z < 9) setup(z - 5); else { Step t; t.k = 3; c.log("calls on a missing solver"); h.push_back(t); } continue; }
    Step t; int z = s.range(0, 19);
    if (z < 13) { t.k = 1; t.op = gen_op(s, cur, st, oo); if (t.op.k == O_SET) { t.op.st.verbose = s.chance(1, 12); t.op.st.max_iter = std::min((int)t.op.st.max_iter, 200); } log_op(c, t.op); model_op(cur, t.op); }
    else if (z < 15) { t.k = 2; t.bad = gen_bad(s, cur, st); c.log("invalid call: %s", t.bad.what.c_str()); }
    else if (z == 15) { t.k = 4; c.log("get_solution into storage of the exact size"); }
    else if (z == 16) { t.k = 5; t.arg = s.range(0, 40); c.log("solve interrupted by the clock"); }
    else if (z == 17) { t.k = 6; c.log("cleanup"); have = false; }
    else if (z == 18) { t.k = 7; c.log("matrix helpers"); t.arg = s.range(0, 5); }
    else { // a nonconvex update and a solve of what results
      t.k = 8; t.op.k = O_MAT; t.op.hP = cur.P.nnz() > 0; t.op.pall = true; t.op.Px = cur.P.x; for (auto& v : t.op.Px) v = -v - 1; if (!t.op.hP) continue; c.log("nonconvex matrix update"); }
    h.push_back(t);
  }
  return h;
}
static int g_jump; static void jump() { vclk_advance(1e12); }
typedef std::vector<Result> Trace;
static Trace execute(Ctx& c, const std::vector<Step>& h, int fill) {
  Trace tr; vmem_reset(); vmem_set_fill(fill); vclk_virtual(1000.0, 1e-6); OSQPSolver* keep = nullptr; (void)keep;
  { Osqp q; auto rec = [&](int code) { Result r; memset((void*)&r.info, 0, sizeof r.info); r.flag = code; if (q.s && q.setup_flag == 0) { Result g = q.get(); g.flag = code; r = g; } tr.push_back(r); };
    for (auto& t : h) switch (t.k) {
      case 0: { q.cleanup(); // inputs are exact-size heap copies, released after the call
        std::unique_ptr<Prob> pc(new Prob(t.p)); std::unique_ptr<OSQPSettings> sc(new OSQPSettings(t.st)); pc->q.shrink_to_fit(); int f = q.setup(*pc, *sc); rec(f); if (f == 0 && t.arg == 1) c.fail("mem:accepted", "an invalid setting was accepted"); break; }
      case 1: if (q.s) { int f = apply_op(q, t.op, true); rec(f); } break;
      case 2: if (q.s) { int f = apply_bad(q, t.bad); rec(f); } break;
      case 3: { V x(3, 0); OSQPSettings st = defaults(); OSQPInt m = 5, n = 5; int codes = 0; codes += !osqp_solve(nullptr); codes += !osqp_update_data_vec(nullptr, x.data(), x.data(), x.data()); codes += !osqp_update_data_mat(nullptr, x.data(), nullptr, 1, x.data(), nullptr, 1); codes += !osqp_update_rho(nullptr, 1); codes += !osqp_update_settings(nullptr, &st); codes += !osqp_warm_start(nullptr, x.data(), x.data()); osqp_cold_start(nullptr); codes += !osqp_get_solution(nullptr, nullptr); osqp_get_dimensions(nullptr, &m, &n); osqp_cleanup(nullptr); osqp_set_default_settings(nullptr); osqp_set_default_codegen_defines(nullptr); OSQPCscMatrix_free(nullptr); CHECK(c, codes == 0, "mem:null-accepted", "%d calls on a missing solver returned success", codes); break; }
      case 4: if (q.s && q.setup_flag == 0) { std::unique_ptr<OSQPFloat[]> x(new OSQPFloat[q.n]), y(new OSQPFloat[q.m ? q.m : 1]), a(new OSQPFloat[q.m ? q.m : 1]), b(new OSQPFloat[q.n]); OSQPSolution so; so.x = x.get(); so.y = y.get(); so.prim_inf_cert = a.get(); so.dual_inf_cert = b.get(); rec((int)osqp_get_solution(q.s, &so)); Result g; memset((void*)&g.info, 0, sizeof g.info); g.x.assign(x.get(), x.get() + q.n); g.y.assign(y.get(), y.get() + q.m); g.pc.assign(a.get(), a.get() + q.m); g.dc.assign(b.get(), b.get() + q.n); tr.push_back(g); } break;
      case 5: if (q.s && q.setup_flag == 0) { vclk_on_call(t.arg, jump); int f = q.solve(); vclk_on_call(0, nullptr); rec(f); } break;
      case 6: q.cleanup(); CHECK(c, vmem_live() == 0, "mem:leak", "%ld allocations (first of %zu bytes) survive cleanup", vmem_live(), vmem_first_live_size()); break;
      case 7: { int n = t.arg; OSQPCscMatrix* a = OSQPCscMatrix_zeros(n, 3); OSQPCscMatrix* b = OSQPCscMatrix_identity(n); V d(6, 2); OSQPCscMatrix* e = OSQPCscMatrix_diag_vec(n, 4, d.data()); OSQPCscMatrix* f = OSQPCscMatrix_diag_scalar(3, n, 2); OSQPCscMatrix_free(a); OSQPCscMatrix_free(b); OSQPCscMatrix_free(e); OSQPCscMatrix_free(f); break; }
      case 8: if (q.s) { int f = apply_op(q, t.op, true); rec(f); rec(q.setup_flag == 0 ? q.solve() : 0); Op back = t.op; if (q.setup_flag == 0) { for (auto& v : back.Px) v = -v - 1; rec(apply_op(q, back, true)); rec(q.solve()); } } break;
    }
  }
  CHECK(c, vmem_live() == 0, "mem:leak", "%ld allocations (first of %zu bytes) survive cleanup", vmem_live(), vmem_first_live_size()); CHECK(c, vmem_bad() == 0, "mem:bad-free", "%ld releases of memory that was not allocated", vmem_bad());
  return tr;
}
PROPERTY(C16, histories, 1, "the history contains a successful setup and at least two further calls") {
  std::vector<Step> h = gen_history(s, c); Trace a = execute(c, h, 0x21), b = execute(c, h, 0xFF);
  CHECK(c, a.size() == b.size(), "mem:uninitialised", "the number of recorded results differs"); for (size_t i = 0; i < a.size(); i++) { std::string d = diff_results(a[i], b[i], 0, 0); if (d.empty() && memcmp(&a[i].info.primdual_int, &b[i].info.primdual_int, sizeof(OSQPFloat))) d = "primdual_int"; auto tm = [&](const char* n, double x, double y) { if (!same_float(x, y)) d += n; }; tm("setup_time ", a[i].info.setup_time, b[i].info.setup_time); tm("solve_time ", a[i].info.solve_time, b[i].info.solve_time); tm("update_time ", a[i].info.update_time, b[i].info.update_time); tm("polish_time ", a[i].info.polish_time, b[i].info.polish_time); tm("run_time ", a[i].info.run_time, b[i].info.run_time); CHECK(c, d.empty(), "mem:uninitialised", "result %zu depends on the contents of fresh memory: %s", i, d.c_str()); }
  int ok = 0, more = 0; for (auto& t : h) { if (t.k == 0 && t.arg == 0) ok++; else if (ok) more++; c.label("step:" + std::to_string(t.k)); } if (ok && more > 1) c.nontrivial();
}

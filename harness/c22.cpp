// C22: solver objects are independent: any interleaving of their calls gives each the results it has alone.
#include "reject.hpp"
namespace {
struct Act { int k; Prob p; OSQPSettings st; Op op; Bad bad; };     // 0 setup, 1 operation, 2 invalid call, 3 cleanup, 4 failing setup
struct Script { std::vector<Act> a; int solves = 0; };
Script gen_script(Src& s, Ctx& c, int id) {
  Script r; SetOpt so; so.timed = true; OpOpt oo; oo.so = so; int rounds = s.chance(1, 4) ? 2 : 1;
  for (int q = 0; q < rounds; q++) {
    Act a; if (s.chance(1, 8)) { a.k = 4; GenOpt o; a.p = gen_any(s, o); a.st = defaults(); std::string w; if (s.chance(1, 2)) break_setting(s, a.st, true, w); else if (a.p.m) { a.p.l[0] = 2; a.p.u[0] = 1; } else a.st.rho = -1; c.log("[%d] failing setup", id); r.a.push_back(a); }
    a.k = 0; GenOpt o; a.p = gen_any(s, o); a.st = gen_settings(s, so); a.st.max_iter = std::min((int)a.st.max_iter, 300); if (a.st.adaptive_rho == 2 && !a.st.adaptive_rho_interval) a.st.adaptive_rho_interval = 10; if (s.chance(1, 12)) a.st.verbose = 1; c.log("[%d] setup", id); log_prob(c, a.p); log_settings(c, a.st); r.a.push_back(a); Prob cur = a.p; OSQPSettings st = a.st;
    int k = tail_len(s, 1, 6); for (int i = 0; i < k; i++) { Act b; if (s.chance(1, 10)) { b.k = 2; b.bad = gen_bad(s, cur, st); c.log("[%d] invalid call: %s", id, b.bad.what.c_str()); } else { b.k = 1; if (i == 0 || s.chance(1, 3)) b.op = Op(); else b.op = gen_op(s, cur, st, oo); if (b.op.k == O_SET) b.op.st.max_iter = std::min((int)b.op.st.max_iter, 300); if (b.op.k == O_SOLVE) r.solves++; c.log("[%d]", id); log_op(c, b.op); model_op(cur, b.op); } r.a.push_back(b); }
    if (q + 1 < rounds || s.chance(1, 2)) { Act z; z.k = 3; c.log("[%d] cleanup", id); r.a.push_back(z); }
  }
  return r;
}
Result step(Osqp& q, const Act& a, int idx) {
  vclk_virtual(1000.0 + idx, 1e-6); int code = 0; switch (a.k) { case 0: code = q.setup(a.p, a.st); break; case 4: { Osqp t; code = t.setup(a.p, a.st); break; } case 1: if (q.s && !q.setup_flag) code = apply_op(q, a.op, true); break; case 2: if (q.s && !q.setup_flag) code = apply_bad(q, a.bad); break; case 3: q.cleanup(); q.setup_flag = -1; break; }
  Result r; memset((void*)&r.info, 0, sizeof r.info); if (q.s && q.setup_flag == 0) r = q.get(); r.flag = code; return r;
}
}
PROPERTY(C22, interleaving, 1, "at least two solvers with solves, whose calls were really interleaved") {
  int n = s.range(2, 3); std::vector<Script> sc; for (int i = 0; i < n; i++) sc.push_back(gen_script(s, c, i));
  std::vector<std::vector<Result>> alone(n); for (int i = 0; i < n; i++) { vmem_reset(); { Osqp q; for (size_t j = 0; j < sc[i].a.size(); j++) alone[i].push_back(step(q, sc[i].a[j], (int)j)); } CHECK(c, vmem_live() == 0, "indep:leak", "%ld allocations survive", vmem_live()); }
  vmem_reset(); std::vector<size_t> pos(n, 0); int sw = 0, last = -1; { Osqp q[3]; std::string order;
    for (;;) { std::vector<int> left; for (int i = 0; i < n; i++) if (pos[i] < sc[i].a.size()) left.push_back(i); if (left.empty()) break; int i = left[s.draw(left.size())]; if (i != last && last >= 0) sw++; last = i; order += std::to_string(i); size_t j = pos[i]++; Result r = step(q[i], sc[i].a[j], (int)j); std::string d = diff_results(alone[i][j], r, 0, 0); auto tm = [&](const char* nm, double x, double y) { if (!same_float(x, y)) d += nm; }; tm("setup_time ", alone[i][j].info.setup_time, r.info.setup_time); tm("solve_time ", alone[i][j].info.solve_time, r.info.solve_time); tm("update_time ", alone[i][j].info.update_time, r.info.update_time); tm("polish_time ", alone[i][j].info.polish_time, r.info.polish_time); tm("run_time ", alone[i][j].info.run_time, r.info.run_time); tm("primdual_int ", alone[i][j].info.primdual_int, r.info.primdual_int);
      CHECK(c, d.empty(), "indep:result", "order %s: call %zu of solver %d gives another result than alone: %s", order.c_str(), j, i, d.c_str()); }
    c.log("order of calls: %s", order.c_str()); }
  CHECK(c, vmem_live() == 0 && vmem_bad() == 0, "indep:leak", "%ld allocations survive all cleanups", vmem_live()); int act = 0; for (auto& x : sc) act += x.solves > 0; if (act > 1 && sw > 1) c.nontrivial();
}

// C20: an interrupt stops the solve cleanly and is otherwise left alone.
#include "hist.hpp"
#include <signal.h>
static volatile int g_hits; static void mine(int) { g_hits = g_hits + 1; } static void mine2(int, siginfo_t*, void*) { g_hits = g_hits + 1; }
static int g_times; static void kick() { for (int i = 0; i < g_times; i++) raise(SIGINT); }
namespace { struct Guard { struct sigaction old; Guard() { sigaction(SIGINT, nullptr, &old); } ~Guard() { vclk_on_call(0, nullptr); sigaction(SIGINT, &old, nullptr); } }; }
static void install(int kind, struct sigaction& a) { memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask); if (kind == 0) a.sa_handler = mine; else if (kind == 1) { a.sa_sigaction = mine2; a.sa_flags = SA_SIGINFO | SA_RESTART; sigaddset(&a.sa_mask, SIGUSR1); } else if (kind == 2) a.sa_handler = SIG_IGN; else a.sa_handler = SIG_DFL; sigaction(SIGINT, &a, nullptr); sigaction(SIGINT, nullptr, &a); }
static void same_disposition(Ctx& c, const struct sigaction& a, const char* after) { struct sigaction n; sigaction(SIGINT, nullptr, &n); bool same = n.sa_flags == a.sa_flags && n.sa_handler == a.sa_handler && !memcmp(&n.sa_mask, &a.sa_mask, 8); CHECK(c, same, "int:disposition", "the caller's signal disposition is not in force after %s", after); }
PROPERTY(C20, interrupt, 4, "an interrupt arrived during a solve and stopped it, and the solver was used again") {
  Guard g; GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = std::min((int)st.max_iter, 400); bool hard = s.chance(1, 2); if (hard) { st.eps_abs = (OSQPFloat)1e-14; st.eps_rel = 0; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-14; st.check_termination = s.range(0, 30); } if (st.adaptive_rho == 2 && !st.adaptive_rho_interval) st.adaptive_rho_interval = 10;
  int kind = s.range(0, 3); struct sigaction act; install(kind, act); log_prob(c, p); log_settings(c, st); c.log("caller's disposition: %d", kind); bool caller = kind <= 1;
  Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st); same_disposition(c, act, "setup"); bool stopped = false, reused = false; int k = tail_len(s, 1, 4); OpOpt oo; oo.wSolve = 0; oo.wSet = 0;
  for (int i = 0; i < k; i++) {
    int at = s.range(2, hard ? 120 : 40); g_times = s.range(1, 2); g_hits = 0; vclk_reset_calls(); vclk_on_call(at, kick); int f = a.solve(); long calls = vclk_calls(); vclk_on_call(0, nullptr); bool arrived = calls >= at; Result r = a.get(); c.log("interrupt at clock reading %d of %ld: returned %d, %s", at, calls, f, r.info.status);
    same_disposition(c, act, "a solve"); CHECK(c, g_hits == 0 , "int:stolen", "the caller's handler was called during a solve");
    if (r.st() == OSQP_SIGINT) { CHECK(c, arrived, "int:spurious", "reported interrupted although no signal arrived"); CHECK(c, f != 0, "int:return", "an interrupted solve returned 0"); CHECK(c, calls <= at + 1, "int:late", "%ld clock readings after the interrupt: the solve went on", calls - at); CHECK(c, !strcmp(r.info.status, "interrupted"), "int:text", "status text '%s'", r.info.status); stopped = true; }
    else { CHECK(c, f == 0 || r.st() == OSQP_NON_CVX, "int:return", "a solve that ended '%s' returned %d", r.info.status, f); // it may have ended in the very iteration, or been past the loop
      if (arrived) CHECK(c, calls <= at + 7, "int:ignored", "a signal at clock reading %d, and the solve ended '%s' after %ld readings", at, r.info.status, calls); }
    // signals between calls go to the caller
    if (caller && s.chance(1, 2)) { g_hits = 0; raise(SIGINT); CHECK(c, g_hits == 1, "int:outside", "a signal after the solve did not reach the caller"); c.log("signal between the calls"); }
    if (kind == 2 && s.chance(1, 2)) raise(SIGINT);
    if (s.chance(1, 2)) { Op op = gen_op(s, p, st, oo); log_op(c, op); int x = apply_op(a, op), y = apply_op(b, op); if (op.k == O_GET) y = x; CHECK(c, x == y, "int:update", "%s returned %d after an interrupt, %d without", op_name(op.k), x, y); if (x) return; model_op(p, op); }
    // a cold start is the same as if nothing had happened
    if (s.chance(2, 3)) { double rho = st.rho; osqp_update_rho(a.s, (OSQPFloat)rho); osqp_update_rho(b.s, (OSQPFloat)rho); osqp_cold_start(a.s); osqp_cold_start(b.s); OSQPSettings t = *a.s->settings; (void)t; int ra = (int)a.s->info->rho_updates, rb = (int)b.s->info->rho_updates; Result x = a.run(), y = b.run(); x.info.rho_updates -= ra; y.info.rho_updates -= rb; std::string d = diff_results(x, y, 0, 0); CHECK(c, d.empty(), "int:aftermath", "a cold-started solve differs from one on a solver that was never interrupted: %s", d.c_str()); same_disposition(c, act, "a solve"); reused = true; }
  }
  g_hits = 0; a.cleanup(); b.cleanup(); same_disposition(c, act, "cleanup"); if (stopped && reused) c.nontrivial();
}
// signals between calls never interrupt a later solve; every way of ending restores the disposition
PROPERTY(C20, outside, 2, "signals arrived between the calls of a history with at least two solves") {
  Guard g; GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.timed = true; OSQPSettings st = gen_settings(s, so); st.max_iter = std::min((int)st.max_iter, 1000); if (st.adaptive_rho == 2 && !st.adaptive_rho_interval) st.adaptive_rho_interval = 10; int kind = s.range(0, 2); struct sigaction act; install(kind, act); g_hits = 0; int sent = 0; auto sig = [&]() { int k = s.range(0, 2); for (int i = 0; i < k; i++) { raise(SIGINT); sent++; } };
  log_prob(c, p); log_settings(c, st); Osqp a, b; sig(); vclk_virtual(1000, 1e-6); int f = a.setup(p, st); sig(); if (f) c.discard(); vclk_virtual(1000, 1e-6); b.setup(p, st); int k = s.range(2, 6), n = 0; OpOpt oo; oo.so = so;
  for (int i = 0; i < k; i++) { Op op; if (i > 0 && i < k - 1) op = gen_op(s, p, st, oo); log_op(c, op); sig(); vclk_virtual(1000 + i, 1e-6); int x = apply_op(a, op); sig(); vclk_virtual(1000 + i, 1e-6); int y = apply_op(b, op); same_disposition(c, act, op_name(op.k)); CHECK(c, x == y, "int:outside-effect", "%s returned %d and %d", op_name(op.k), x, y); if (x) return; model_op(p, op); if (op.k == O_SOLVE) { n++; Result r = a.get(), t = b.get(); c.label(std::string("status:") + st_name(r.st())); CHECK(c, r.st() != OSQP_SIGINT, "int:spurious", "a signal between calls interrupted a solve"); std::string d = diff_results(r, t, 0, 0); CHECK(c, d.empty(), "int:outside-effect", "signals between calls changed a result: %s", d.c_str()); } }
  if (kind <= 1) CHECK(c, g_hits == sent, "int:outside", "%d signals sent between calls, %d reached the caller", sent, (int)g_hits);
  if (sent && n > 1) c.nontrivial();
}

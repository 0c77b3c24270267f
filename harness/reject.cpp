#include "reject.hpp"
// put exactly one setting out of its documented range; false when the drawn one only matters at setup
bool break_setting(Src& s, OSQPSettings& t, bool atSetup, std::string& what) {
  const OSQPFloat nan = std::numeric_limits<OSQPFloat>::quiet_NaN(); OSQPFloat badpos[] = {0, -1, nan, (OSQPFloat)-1e-30}; OSQPFloat bp = badpos[s.draw(4)]; OSQPInt bb[] = {2, -1, 7}; OSQPInt bad01 = bb[s.draw(3)]; OSQPInt bi[] = {0, -1, -100}; OSQPInt badpi = bi[s.draw(3)]; OSQPInt badnn = s.chance(1, 2) ? -1 : -37;
  int k = s.range(0, atSetup ? 28 : 17);
  switch (k) {
    case 0: t.verbose = bad01; what = "verbose"; break;
    case 1: t.warm_starting = bad01; what = "warm_starting"; break;
    case 2: t.polishing = bad01; what = "polishing"; break;
    case 3: { OSQPFloat a[] = {0, 2, -1, (OSQPFloat)2.5, nan}; t.alpha = a[s.draw(5)]; what = "alpha"; break; }
    case 4: t.cg_max_iter = badpi; what = "cg_max_iter"; break;
    case 5: t.cg_tol_reduction = badpi; what = "cg_tol_reduction"; break;
    case 6: { OSQPFloat a[] = {0, 1, -1, (OSQPFloat)1.5, nan}; t.cg_tol_fraction = a[s.draw(5)]; what = "cg_tol_fraction"; break; }
    case 7: t.max_iter = badpi; what = "max_iter"; break;
    case 8: t.eps_abs = s.chance(1, 2) ? (OSQPFloat)-1e-9 : nan; what = "eps_abs"; break;
    case 9: t.eps_rel = s.chance(1, 2) ? (OSQPFloat)-1e-9 : nan; what = "eps_rel"; break;
    case 10: t.eps_abs = t.eps_rel = 0; what = "eps_abs=eps_rel=0"; break;
    case 11: t.eps_prim_inf = bp; what = "eps_prim_inf"; break;
    case 12: t.eps_dual_inf = bp; what = "eps_dual_inf"; break;
    case 13: t.scaled_termination = bad01; what = "scaled_termination"; break;
    case 14: t.check_termination = badnn; what = "check_termination"; break;
    case 15: t.check_dualgap = bad01; what = "check_dualgap"; break;
    case 16: t.time_limit = bp; what = "time_limit"; break;
    case 17: if (s.chance(1, 2)) { t.delta = bp; what = "delta"; } else if (s.chance(1, 2)) { t.polish_refine_iter = badnn; what = "polish_refine_iter"; } else if (s.chance(1, 2)) { t.profiler_level = s.chance(1, 2) ? 3 : -1; what = "profiler_level"; } else { t.cg_precond = (osqp_precond_type)(s.chance(1, 2) ? 7 : 99); what = "cg_precond"; } break;
    case 18: t.allocate_solution = bad01; what = "allocate_solution"; break;
    case 19: t.scaling = badnn; what = "scaling"; break;
    case 20: t.rho = bp; what = "rho"; break;
    case 21: t.rho_is_vec = bad01; what = "rho_is_vec"; break;
    case 22: t.sigma = bp; what = "sigma"; break;
    case 23: t.adaptive_rho = s.chance(1, 2) ? -1 : 4; what = "adaptive_rho"; break;
    case 24: t.adaptive_rho_interval = badnn; what = "adaptive_rho_interval"; break;
    case 25: t.adaptive_rho_fraction = bp; what = "adaptive_rho_fraction"; break;
    case 26: { OSQPFloat a[] = {(OSQPFloat)0.999, 0, -5, nan}; t.adaptive_rho_tolerance = a[s.draw(4)]; what = "adaptive_rho_tolerance"; break; }
    case 27: t.linsys_solver = (osqp_linsys_solver_type)(s.chance(1, 2) ? 5 : 0); what = "linsys_solver"; break;
    default: t.sigma = bp; what = "sigma"; break;
  }
  return true;
}
static double firstfin(double a, double b) { return is_inf_bound(a) ? (is_inf_bound(b) ? 0 : b) : a; }
Bad gen_bad(Src& s, const Prob& p, const OSQPSettings& st) {
  Bad b; b.k = s.range(0, 6); if (b.k <= 1 && !p.m) b.k = 2;
  switch (b.k) {
    case 0: case 1: {   // crossing bounds, possibly with a valid q in the same call
      b.op = gen_vec(s, p, true); b.op.hq = s.chance(1, 2); if (b.op.hq && b.op.q.empty()) { b.op.q = p.q; for (auto& v : b.op.q) v += 1; }
      int w = s.range(1, 3); b.op.hl = w & 1; b.op.hu = w & 2; V l = b.op.hl && b.op.l.size() ? b.op.l : p.l, u = b.op.hu && b.op.u.size() ? b.op.u : p.u;
      if (!b.op.hl) l = p.l; if (!b.op.hu) u = p.u;
      std::vector<int> rows; for (int i = 0; i < p.m; i++) if ((b.op.hl && b.op.hu) || (b.op.hl ? !is_inf_bound(p.u[i]) : !is_inf_bound(p.l[i]))) rows.push_back(i);
      if (rows.empty()) { b.op.hl = b.op.hu = true; l = p.l; u = p.u; for (int i = 0; i < p.m; i++) rows.push_back(i); }
      int i = rows[s.draw(rows.size())]; static const double g[] = {1, 0.125, 1e-3, 50, 1e-7, 1e-11}; double d = g[s.draw(sizeof(OSQPFloat) == 8 ? 6 : 4)];
      if (b.op.hl && b.op.hu) { double cen = firstfin(p.l[i], p.u[i]); if (d < 1e-4) d *= 1 + fabs(cen); l[i] = (OSQPFloat)(cen + d); u[i] = (OSQPFloat)(cen - d); } else if (b.op.hl) l[i] = (OSQPFloat)(p.u[i] + d * (1 + fabs((double)p.u[i]))); else u[i] = (OSQPFloat)(p.l[i] - d * (1 + fabs((double)p.l[i])));
      b.op.l = l; b.op.u = u; b.what = "crossing bounds"; break; }
    case 2: case 3: {   // bad counts, possibly with valid values for the other matrix
      b.op = Op(); b.op.k = O_MAT; int nP = p.P.nnz(), nA = p.A.nnz(); b.op.hP = true; b.op.hA = true; b.op.Px = p.P.x; for (auto& v : b.op.Px) v *= 2; b.op.Ax = p.A.x; for (auto& v : b.op.Ax) v = -v; b.op.Px.push_back(1); b.op.Ax.push_back(1); for (int i = 0; i <= nP; i++) b.op.Pi.push_back(i < nP ? i : 0); for (int i = 0; i <= nA; i++) b.op.Ai.push_back(i < nA ? i : 0);
      b.pn = nP; b.an = nA; b.pidx = s.chance(1, 2); b.aidx = s.chance(1, 2); bool onA = s.chance(1, 2); int nn = onA ? nA : nP; int bad; bool idx = true; switch (s.range(0, 2)) { case 0: bad = nn + 1; break; case 1: bad = -1; break; default: if (nn > 1) { bad = nn - 1; idx = false; } else bad = nn + 1; }
      if (onA) { b.an = bad; if (!idx) b.aidx = false; b.what = "bad count for A"; } else { b.pn = bad; if (!idx) b.pidx = false; b.what = "bad count for P"; }
      if (onA ? s.chance(1, 3) : s.chance(1, 3)) { if (onA) b.op.hP = false, b.pn = 0; else b.op.hA = false, b.an = 0; }
      break; }
    case 4: { static const double r[] = {0, -1, NAN, -1e-300}; b.op.k = O_RHO; b.op.rho = r[s.draw(4)]; b.what = "nonpositive step size"; break; }
    case 5: { b.op.k = O_SET; SetOpt so; b.op.st = gen_settings(s, so); b.op.st.linsys_solver = st.linsys_solver; break_setting(s, b.op.st, false, b.what); b.what = "settings with invalid " + b.what; break; }
    default: b.what = s.chance(1, 2) ? "missing settings" : "missing solution storage"; b.op.k = O_GET; break;
  }
  return b;
}
int apply_bad(Osqp& q, const Bad& b) {
  if (b.k == 2 || b.k == 3) return (int)osqp_update_data_mat(q.s, b.op.hP ? b.op.Px.data() : nullptr, b.pidx ? b.op.Pi.data() : nullptr, b.pn, b.op.hA ? b.op.Ax.data() : nullptr, b.aidx ? b.op.Ai.data() : nullptr, b.an);
  if (b.k == 6) return b.what == "missing settings" ? (int)osqp_update_settings(q.s, nullptr) : (int)osqp_get_solution(q.s, nullptr);
  return apply_op(q, b.op, true);
}

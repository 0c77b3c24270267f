#include "hist.hpp"
static const char* kNames[] = {"solve", "update_data_vec", "update_data_mat", "update_settings", "update_rho", "warm_start", "cold_start", "get_solution"};
const char* op_name(OpKind k) { return kNames[k]; }
static double cval(Src& s) { int k = s.range(0, 5); double v = k == 0 ? 0 : k <= 3 ? s.range(1, 8) * 0.25 : 3 * s.unit(); return s.chance(1, 2) ? -v : v; }

Op gen_vec(Src& s, const Prob& p, bool moderate) {
  Op o; o.k = O_VEC; int w = s.range(1, 7); o.hq = w & 1; o.hl = w & 2; o.hu = w & 4; if (!p.m) { o.hl = o.hu = false; o.hq = true; }
  if (o.hq) { o.q = p.q; int style = s.range(0, 3); for (auto& v : o.q) if (style == 0 || s.chance(1, 2)) v = (OSQPFloat)(style == 3 && !moderate ? v * gscale(s) : style == 2 ? -v : cval(s)); }
  V l = p.l, u = p.u;
  for (int i = 0; i < p.m; i++) {
    if (!s.chance(1, 2)) continue;
    bool il = is_inf_bound(l[i]), iu = is_inf_bound(u[i]);
    double g = 0.25 * s.range(0, 8);
    if (o.hl && o.hu) { double cen = il && iu ? cval(s) : il ? u[i] : l[i]; if (s.chance(1, 2)) cen += cval(s); switch (s.range(0, 4)) { case 0: l[i] = (OSQPFloat)(cen - g); u[i] = (OSQPFloat)(cen + g + 0.25); break; case 1: l[i] = u[i] = (OSQPFloat)cen; break; case 2: l[i] = (OSQPFloat)-ginf(s); u[i] = (OSQPFloat)cen; break; case 3: l[i] = (OSQPFloat)cen; u[i] = (OSQPFloat)ginf(s); break; default: l[i] = (OSQPFloat)-ginf(s); u[i] = (OSQPFloat)ginf(s); } }
    else if (o.hl) { if (s.chance(1, 3)) l[i] = (OSQPFloat)-ginf(s); else if (iu) l[i] = (OSQPFloat)cval(s); else l[i] = (OSQPFloat)(u[i] - g - (s.chance(1, 3) ? 0.0 : 0.25)); if (l[i] > u[i]) l[i] = u[i]; }
    else if (o.hu) { if (s.chance(1, 3)) u[i] = (OSQPFloat)ginf(s); else if (il) u[i] = (OSQPFloat)cval(s); else u[i] = (OSQPFloat)(l[i] + g + (s.chance(1, 3) ? 0.0 : 0.25)); if (l[i] > u[i]) u[i] = l[i]; }
  }
  if (o.hl) o.l = l;
  if (o.hu) o.u = u;
  return o;
}
static void shuffle(Src& s, V& x, VI& i) { if (!s.chance(1, 2)) return; for (size_t a = x.size(); a > 1; a--) { size_t b = s.draw(a); std::swap(x[a - 1], x[b]); std::swap(i[a - 1], i[b]); } }
Op gen_mat(Src& s, const Prob& p, bool moderate) {
  Op o; o.k = O_MAT; int w = s.range(1, 3); o.hP = (w & 1) && p.P.nnz(); o.hA = (w & 2) && p.A.nnz();
  auto fac = [&]() { static const double m[] = {1, 2, 0.5, -1, 1.5, 0.25}; static const double f[] = {1, 2, 0.5, -1, 1.5, 10, 0.1, 0, 100}; return moderate ? m[s.draw(6)] : f[s.draw(9)]; };
  if (o.hP) {   // D P D keeps the cost convex
    V d(p.n, 1), nx = p.P.x; bool all = s.chance(1, 2); for (auto& v : d) if (all || s.chance(1, 3)) v = (OSQPFloat)fac();
    double c = s.chance(1, 3) ? fabs(fac()) : 1; if (c == 0) c = 1; bool anyc = c != 1;
    for (int j = 0; j < p.n; j++) for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) nx[k] = (OSQPFloat)((double)nx[k] * c * d[j] * d[p.P.i[k]]);
    o.pall = s.chance(1, 2);
    if (o.pall) o.Px = nx; else { for (int j = 0; j < p.n; j++) for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (anyc || d[j] != 1 || d[p.P.i[k]] != 1 || s.chance(1, 6)) { o.Px.push_back(nx[k]); o.Pi.push_back(k); } if (o.Px.empty()) { o.Px.push_back(nx[0]); o.Pi.push_back(0); } shuffle(s, o.Px, o.Pi); }
  }
  if (o.hA) {
    V nx = p.A.x; o.aall = s.chance(1, 2); int style = s.range(0, 2);
    for (size_t k = 0; k < nx.size(); k++) if (o.aall || s.chance(1, 2)) { double v = style == 0 ? nx[k] * fac() : style == 1 ? gval(s, moderate) : nx[k] + cval(s); if (!o.aall) { o.Ai.push_back((OSQPInt)k); o.Ax.push_back((OSQPFloat)v); } else o.Ax.push_back((OSQPFloat)v); }
    if (o.Ax.empty()) { o.Ax.push_back(nx[0]); o.Ai.push_back(0); o.aall = false; }
    if (!o.aall) shuffle(s, o.Ax, o.Ai);
  }
  if (!o.hP && !o.hA) { Op v = gen_vec(s, p, moderate); return v; }
  return o;
}
Op gen_warm(Src& s, const Prob& p) {
  Op o; o.k = O_WARM; int w = s.range(1, 3); o.hx = w & 1; o.hy = w & 2; if (!o.hx && !p.m) { o.hx = true; o.hy = false; }
  if (o.hx) { o.x.resize(p.n); int st = s.range(0, 2); for (auto& v : o.x) v = (OSQPFloat)(st == 0 ? 0 : st == 1 ? cval(s) : cval(s) * gscale(s)); if (p.xs.size() && s.chance(1, 3)) o.x = toF(p.xs); }
  if (o.hy) { o.y.resize(p.m); int st = s.range(0, 2); for (auto& v : o.y) v = (OSQPFloat)(st == 0 ? 0 : st == 1 ? cval(s) : cval(s) * gscale(s)); if (p.ys.size() && s.chance(1, 3)) o.y = toF(p.ys); }
  return o;
}
Op gen_op(Src& s, const Prob& p, const OSQPSettings& base, const OpOpt& oo) {
  int w[] = {oo.wSolve, oo.wVec, oo.wMat, oo.wSet, oo.wRho, oo.wWarm, oo.wCold, oo.wGet}, sum = 0; for (int x : w) sum += x;
  int t = (int)s.draw(sum), k = 0; while (t >= w[k]) t -= w[k++];
  Op o; o.k = (OpKind)k;
  switch (k) {
    case O_VEC: return gen_vec(s, p, oo.moderate);
    case O_MAT: return gen_mat(s, p, oo.moderate);
    case O_SET: { o.st = gen_settings(s, oo.so); o.st.linsys_solver = base.linsys_solver; if (s.chance(1, 2)) { o.st.time_limit = s.chance(1, 2) ? 1e10 : 1e-4; if (!oo.so.timed) o.st.time_limit = base.time_limit; } break; }
    case O_RHO: { static const double r[] = {0.1, 1, 0.01, 10, 100, 1e-3, 1e-7, 1e7}; o.rho = r[s.draw(oo.moderate ? 5 : 8)]; break; }
    case O_WARM: return gen_warm(s, p);
    default: break;
  }
  return o;
}
// every array is handed over as an exact-size heap copy; with poison it is overwritten and released
// right after the call, and `wrote` names an array the call modified
int apply_op(Osqp& q, const Op& o, bool poison, std::string* wrote) {
  if (o.k == O_WARM || o.k == O_VEC) q.carry = true;
  if (!poison) switch (o.k) {
    case O_SOLVE: return q.solve();
    case O_VEC: return (int)osqp_update_data_vec(q.s, o.hq ? o.q.data() : nullptr, o.hl ? o.l.data() : nullptr, o.hu ? o.u.data() : nullptr);
    case O_MAT: return (int)osqp_update_data_mat(q.s, o.hP ? o.Px.data() : nullptr, o.hP && !o.pall ? o.Pi.data() : nullptr, o.hP ? (OSQPInt)o.Px.size() : 0, o.hA ? o.Ax.data() : nullptr, o.hA && !o.aall ? o.Ai.data() : nullptr, o.hA ? (OSQPInt)o.Ax.size() : 0);
    case O_SET: return (int)osqp_update_settings(q.s, &o.st);
    case O_RHO: return (int)osqp_update_rho(q.s, (OSQPFloat)o.rho);
    case O_WARM: return (int)osqp_warm_start(q.s, o.hx ? (OSQPFloat*)o.x.data() : nullptr, o.hy ? (OSQPFloat*)o.y.data() : nullptr);
    case O_COLD: osqp_cold_start(q.s); return 0;
    case O_GET: { q.get(); return 0; }
    default: return -1;
  }
  std::vector<std::pair<void*, std::pair<const void*, size_t>>> cp;
  auto dupf = [&](const V& v, bool have) -> OSQPFloat* { if (!have) return nullptr; size_t b = v.size() * sizeof(OSQPFloat); void* d = malloc(b ? b : 1); if (b) memcpy(d, v.data(), b); cp.push_back({d, {v.data(), b}}); return (OSQPFloat*)d; };
  auto dupi = [&](const VI& v, bool have) -> OSQPInt* { if (!have) return nullptr; size_t b = v.size() * sizeof(OSQPInt); void* d = malloc(b ? b : 1); if (b) memcpy(d, v.data(), b); cp.push_back({d, {v.data(), b}}); return (OSQPInt*)d; };
  int r = -1;
  switch (o.k) {
    case O_VEC: { auto a = dupf(o.q, o.hq), b = dupf(o.l, o.hl), c = dupf(o.u, o.hu); r = (int)osqp_update_data_vec(q.s, a, b, c); break; }
    case O_MAT: { auto a = dupf(o.Px, o.hP); auto b = dupi(o.Pi, o.hP && !o.pall); auto c = dupf(o.Ax, o.hA); auto d = dupi(o.Ai, o.hA && !o.aall); r = (int)osqp_update_data_mat(q.s, a, b, o.hP ? (OSQPInt)o.Px.size() : 0, c, d, o.hA ? (OSQPInt)o.Ax.size() : 0); break; }
    case O_SET: { OSQPSettings* t = (OSQPSettings*)malloc(sizeof(OSQPSettings)); memcpy(t, &o.st, sizeof *t); cp.push_back({t, {&o.st, sizeof *t}}); r = (int)osqp_update_settings(q.s, t); break; }
    case O_WARM: { auto a = dupf(o.x, o.hx), b = dupf(o.y, o.hy); r = (int)osqp_warm_start(q.s, a, b); break; }
    default: return apply_op(q, o, false, nullptr);
  }
  for (auto& e : cp) { if (e.second.second && memcmp(e.first, e.second.first, e.second.second) && wrote) *wrote = op_name(o.k); memset(e.first, 0x7d, e.second.second); free(e.first); }
  return r;
}
void model_op(Prob& p, const Op& o) {
  bool ch = false;
  if (o.k == O_VEC) { if (o.hq) p.q = o.q; if (o.hl) p.l = o.l; if (o.hu) p.u = o.u; ch = true; }
  if (o.k == O_MAT) {
    if (o.hP) { if (o.pall) p.P.x = o.Px; else for (size_t k = 0; k < o.Px.size(); k++) p.P.x[o.Pi[k]] = o.Px[k]; }
    if (o.hA) { if (o.aall) p.A.x = o.Ax; else for (size_t k = 0; k < o.Ax.size(); k++) p.A.x[o.Ai[k]] = o.Ax[k]; }
    ch = true;
  }
  if (ch) { p.kind = K_ANY; p.hasOpt = p.uniqX = p.uniqY = p.strict = false; p.xs.clear(); p.ys.clear(); p.x0.clear(); p.cert.clear(); p.slack = 0; }
}
static std::string vs2(const V& v) { std::string r; char b[40]; for (auto x : v) { snprintf(b, sizeof b, "%.17g ", (double)x); r += b; if (r.size() > 2500) break; } return r; }
static std::string is2(const VI& v) { std::string r; for (auto x : v) { r += std::to_string((long long)x) + " "; if (r.size() > 1500) break; } return r; }
void log_op(Ctx& c, const Op& o) {
  if (!c.want_desc) return;
  switch (o.k) {
    case O_VEC: c.log("op update_data_vec"); if (o.hq) c.log("   q: %s", vs2(o.q).c_str()); if (o.hl) c.log("   l: %s", vs2(o.l).c_str()); if (o.hu) c.log("   u: %s", vs2(o.u).c_str()); break;
    case O_MAT: c.log("op update_data_mat"); if (o.hP) c.log("   P%s: %s%s", o.pall ? "" : "(idx)", vs2(o.Px).c_str(), o.pall ? "" : ("| " + is2(o.Pi)).c_str()); if (o.hA) c.log("   A%s: %s%s", o.aall ? "" : "(idx)", vs2(o.Ax).c_str(), o.aall ? "" : ("| " + is2(o.Ai)).c_str()); break;
    case O_SET: c.log("op update_settings:"); log_settings(c, o.st); break;
    case O_RHO: c.log("op update_rho %g", o.rho); break;
    case O_WARM: c.log("op warm_start"); if (o.hx) c.log("   x: %s", vs2(o.x).c_str()); if (o.hy) c.log("   y: %s", vs2(o.y).c_str()); break;
    default: c.log("op %s", op_name(o.k));
  }
}
static void nd(std::string& r, const char* n, double a, double b, double rel, double abs) { if (close(a, b, rel, abs)) return; char t[160]; snprintf(t, sizeof t, "%s %.17g vs %.17g; ", n, a, b); r += t; }
std::string diff_results(const Result& a, const Result& b, double rel, double abs, bool iters) {
  std::string r; char t[200];
  if (a.flag != b.flag) { snprintf(t, sizeof t, "return code %d vs %d; ", a.flag, b.flag); r += t; }
  if (a.st() != b.st()) { snprintf(t, sizeof t, "status %s vs %s; ", st_name(a.st()), st_name(b.st())); r += t; }
  if (iters && a.info.iter != b.info.iter) { snprintf(t, sizeof t, "iter %d vs %d; ", (int)a.info.iter, (int)b.info.iter); r += t; }
  if (a.info.status_polish != b.info.status_polish) { snprintf(t, sizeof t, "status_polish %d vs %d; ", (int)a.info.status_polish, (int)b.info.status_polish); r += t; }
  int at = 0; auto vec = [&](const char* n, const V& x, const V& y) { if (!vclose(x, y, rel, abs, &at)) { snprintf(t, sizeof t, "%s[%d] %.17g vs %.17g; ", n, at, (double)x[at], (double)y[at]); r += t; } };
  vec("x", a.x, b.x); vec("y", a.y, b.y); vec("prim_inf_cert", a.pc, b.pc); vec("dual_inf_cert", a.dc, b.dc);
  nd(r, "obj_val", a.info.obj_val, b.info.obj_val, rel, abs);
  if (rel == 0) { nd(r, "dual_obj_val", a.info.dual_obj_val, b.info.dual_obj_val, 0, 0); nd(r, "duality_gap", a.info.duality_gap, b.info.duality_gap, 0, 0); nd(r, "prim_res", a.info.prim_res, b.info.prim_res, 0, 0); nd(r, "dual_res", a.info.dual_res, b.info.dual_res, 0, 0); nd(r, "rho_estimate", a.info.rho_estimate, b.info.rho_estimate, 0, 0); nd(r, "rho_updates", a.info.rho_updates, b.info.rho_updates, 0, 0); nd(r, "rel_kkt_error", a.info.rel_kkt_error, b.info.rel_kkt_error, 0, 0); }
  return r;
}
std::string settings_diff(const OSQPSettings& a, const OSQPSettings& b, bool rhoToo) {
  std::string r;
#define D(f) if (!same_float((double)a.f, (double)b.f)) { char t[160]; snprintf(t, sizeof t, #f " %.17g vs %.17g; ", (double)a.f, (double)b.f); r += t; }
  D(device) D(linsys_solver) D(allocate_solution) D(verbose) D(profiler_level) D(warm_starting) D(scaling) D(polishing) D(rho_is_vec) D(sigma) D(alpha) D(cg_max_iter) D(cg_tol_reduction) D(cg_tol_fraction) D(cg_precond) D(adaptive_rho) D(adaptive_rho_interval) D(adaptive_rho_fraction) D(adaptive_rho_tolerance) D(max_iter) D(eps_abs) D(eps_rel) D(eps_prim_inf) D(eps_dual_inf) D(scaled_termination) D(check_termination) D(check_dualgap) D(time_limit) D(delta) D(polish_refine_iter)
  if (rhoToo) D(rho)
#undef D
  return r;
}
bool tight_bound(const Prob& p, const Op& o) {
  if (o.k != O_VEC || o.hl == o.hu) return false;
  const V& l = o.hl ? o.l : p.l; const V& u = o.hu ? o.u : p.u;
  for (int i = 0; i < p.m; i++) if (l[i] <= u[i] && u[i] - l[i] <= (sizeof(OSQPFloat) == 8 ? 1e-13 : 1e-5) * std::max(fabs((double)l[i]), fabs((double)u[i]))) return true;
  return false;
}
const char* refusal_key(const Prob& cur, const Op& o, const OSQPSettings& st, bool mat) { return st.scaling && mat && tight_bound(cur, o) ? "update:refused-equal-bounds-after-rescaling" : "update:refused"; }

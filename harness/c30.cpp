// C30: the built-in algebra, in double and single precision, with long and short indices, gives the same answers as the
// reference build.  The reference library is linked in; the others are loaded as shared objects behind a neutral interface.
#include "opt.hpp"
#include "shim.h"
#include <dlfcn.h>
#include <memory>
#include <cstdlib>
namespace {
const sh_api* load(const char* v) { const char* d = getenv("VH_SHIMS"); if (!d) return nullptr; std::string f = std::string(d) + "/shim-" + v + ".so"; void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "note: %s\n", dlerror()); return nullptr; } auto g = (const sh_api* (*)())dlsym(h, "sh_get"); return g ? g() : nullptr; }
struct Var { const char* name; const sh_api* a; };
std::vector<Var>& vars() { static std::vector<Var> v; static bool done = false; if (!done) { done = true; for (const char* n : {"bi", "bil", "bif", "bifl", "big"}) if (const sh_api* a = load(n)) v.push_back({n, a}); } return v; }
typedef std::vector<double> D; typedef std::vector<long long> LL;
D d(const V& v) { return D(v.begin(), v.end()); } LL li(const VI& v) { return LL(v.begin(), v.end()); }
D set_of(const OSQPSettings& t) { D v;
#define F(f) v.push_back((double)t.f);
  SH_SETTINGS(F)
#undef F
  return v; }
struct Out { long long flag = 0; D info = D(SH_NINFO), x, y, pc, dc; char status[32] = {0}; int st() const { return (int)info[0]; } };
struct Sv { const sh_api* a; void* h = nullptr; long long f = -1; int n = 0, m = 0; Sv(const sh_api* a) : a(a) {} Sv(const Sv&) = delete; ~Sv() { if (h) a->cleanup(h); }
  long long setup(const Prob& p, const OSQPSettings& t) { n = p.n; m = p.m; LL Pp = li(p.P.p), Pi = li(p.P.i), Ap = li(p.A.p), Ai = li(p.A.i); D Px = d(p.P.x), Ax = d(p.A.x), q = d(p.q), l = d(p.l), u = d(p.u), s = set_of(t); static double z1[1]; static long long z2[1];
    sh_prob w{p.n, p.m, Pp.data(), Pi.empty() ? z2 : Pi.data(), Ap.data(), Ai.empty() ? z2 : Ai.data(), Px.empty() ? z1 : Px.data(), Ax.empty() ? z1 : Ax.data(), q.data(), l.empty() ? z1 : l.data(), u.empty() ? z1 : u.data()}; return f = a->setup(&h, &w, s.data()); }
  long long apply(const Op& o) { switch (o.k) {
    case O_VEC: { D q = d(o.q), l = d(o.l), u = d(o.u); return a->vec(h, o.hq ? q.data() : nullptr, o.hl ? l.data() : nullptr, o.hu ? u.data() : nullptr); }
    case O_MAT: { D Px = d(o.Px), Ax = d(o.Ax); LL Pi = li(o.Pi), Ai = li(o.Ai); return a->mat(h, o.hP ? Px.data() : nullptr, o.hP && !o.pall ? Pi.data() : nullptr, o.hP ? (long long)Px.size() : 0, o.hA ? Ax.data() : nullptr, o.hA && !o.aall ? Ai.data() : nullptr, o.hA ? (long long)Ax.size() : 0); }
    case O_SET: { D s = set_of(o.st); return a->settings(h, s.data()); } case O_RHO: return a->rho(h, o.rho); case O_WARM: { D x = d(o.x), y = d(o.y); return a->warm(h, o.hx ? x.data() : nullptr, o.hy ? y.data() : nullptr); } case O_COLD: a->cold(h); return 0; default: return 0; } }
  Out solve() { Out r; r.x.resize(n + 1); r.dc.resize(n + 1); r.y.resize(m + 1); r.pc.resize(m + 1); r.flag = a->solve(h, r.info.data(), r.x.data(), r.y.data(), r.pc.data(), r.dc.data(), r.status); r.x.resize(n); r.dc.resize(n); r.y.resize(m); r.pc.resize(m); return r; } };
bool close(const D& a, const V& b, double rel, double abs, int* at) { for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - (double)b[i]) <= abs + rel * fabs((double)b[i]))) { *at = (int)i; return false; } return true; }
bool bits(const D& a, const D& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
// a relative change of every number by about `e`, always the same for the same entry (equal bounds stay equal)
double pf(size_t i, int w, double e) { uint64_t h = (i + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)w * 0xD1B54A32D192ED03ull; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; return 1 + e * (((double)(h % 2001) - 1000) / 1000); }
V pv(const V& v, int w, double e) { V r = v; for (size_t i = 0; i < r.size(); i++) if (fabs((double)r[i]) < 1e20) r[i] = (OSQPFloat)(r[i] * pf(i, w, e)); return r; }
Prob pp(const Prob& p, int w, double e) { Prob r = p; r.P.x = pv(p.P.x, 10 + w, e); r.A.x = pv(p.A.x, 20 + w, e); r.q = pv(p.q, 30 + w, e); r.l = pv(p.l, 40 + w, e); r.u = pv(p.u, 40 + w, e); return r; }
Op po(const Op& o, int w, double e) { Op r = o; if (o.k == O_VEC) { r.q = pv(o.q, 30 + w, e); r.l = pv(o.l, 40 + w, e); r.u = pv(o.u, 40 + w, e); } if (o.k == O_MAT) { auto g = [&](V& x, const VI& I, bool all, int z) { for (size_t k = 0; k < x.size(); k++) x[k] = (OSQPFloat)(x[k] * pf(all ? k : (size_t)I[k], z, e)); }; g(r.Px, o.Pi, o.pall, 10 + w); g(r.Ax, o.Ai, o.aall, 20 + w); } if (o.k == O_WARM) { r.x = pv(o.x, 50 + w, e); r.y = pv(o.y, 60 + w, e); } return r; }
}
// the same history through every build; nothing but rounding may differ: the iterates after every solve are compared with the
// reference within an allowance for rounding, and those of builds that differ in index width alone bit for bit
PROPERTY(C30, lockstep, 4, "at least two solves compared with the reference on a problem with constraints") {
  if (vars().empty()) c.discard();
  GenOpt o; o.well = true; o.scaleRows = s.chance(1, 4); o.pd = s.chance(3, 4); Prob p = s.chance(1, 3) ? gen_kkt(s, o) : s.chance(1, 2) ? gen_feas(s, o) : gen_any(s, o); SetOpt so; so.limits = false; so.wild = s.chance(1, 3); OSQPSettings st = gen_settings(s, so); st.linsys_solver = OSQP_DIRECT_SOLVER; if (st.adaptive_rho == 2) st.adaptive_rho = 1; st.allocate_solution = 1; st.time_limit = (OSQPFloat)1e10; st.adaptive_rho = 0; if (s.chance(2, 3)) { st.polishing = 0; st.check_termination = 0; } st.max_iter = s.range(1, 60);
  log_prob(c, p); log_settings(c, st); Osqp r; int f0 = r.setup(p, st); std::vector<std::unique_ptr<Sv>> v; for (auto& w : vars()) { v.emplace_back(new Sv(w.a)); v.back()->setup(p, st); }
  Prob pend = p; double rhoMax = st.rho; auto same = [&](const char* what, long long f, long long g, const Var& w) { if (f != g) { bool acc = (f == 0) != (g == 0); if (min_eig(denseSym(pend.P), pend.n) < (w.a->float_bytes() == 4 ? 1e-2 : 1e-8) || (w.a->float_bytes() == 4 && rhoMax > 5)) { c.label("factorisation-at-edge"); c.discard(); } CHECK(c, acc && (f == OSQP_NONCVX_ERROR || g == OSQP_NONCVX_ERROR || f == OSQP_LINSYS_SOLVER_INIT_ERROR || g == OSQP_LINSYS_SOLVER_INIT_ERROR), "build:return", "%s returned %lld in the reference and %lld in %s", what, f, g, w.name); c.label("factorisation-at-edge"); c.discard(); } };
  for (size_t i = 0; i < v.size(); i++) same("osqp_setup", f0, v[i]->f, vars()[i]); if (f0) { c.label("rejected"); return; }
  int k = s.range(1, 5), done = 0; bool refok = true; std::vector<double> grow(v.size(), 1); Prob cur = p; OpOpt oo; oo.so = so; oo.moderate = true; const double pe = 1e-8; Osqp t1, t2; if (t1.setup(pp(p, 1, pe), st) || t2.setup(pp(p, 2, pe), st)) c.discard(); double keepx = 0, keepy = 0, facs = 10, pol = 1;
  for (int i = 0; i < k; i++) {
    if (i) { Op op = gen_op(s, cur, st, oo); if (op.k == O_SET) { op.st.linsys_solver = OSQP_DIRECT_SOLVER; op.st.time_limit = (OSQPFloat)1e10; op.st.max_iter = s.range(1, 60); op.st.verbose = 0; if (op.st.adaptive_rho == 2) op.st.adaptive_rho = 1; } if (op.k != O_SOLVE && op.k != O_GET) { log_op(c, op); long long f = apply_op(r, op); if ((f == 0) != (apply_op(t1, po(op, 1, pe)) == 0) || (f == 0) != (apply_op(t2, po(op, 2, pe)) == 0)) { c.label("too-sensitive"); return; } if (op.k == O_RHO) rhoMax = std::max(rhoMax, op.rho); if (op.k == O_VEC && tight_bound(cur, op)) { c.label("tight-bounds"); return; } pend = cur; model_op(pend, op); for (size_t j = 0; j < v.size(); j++) same(op_name(op.k), f, v[j]->apply(op), vars()[j]); if (f) { if (op.k == O_MAT) return; } else { Prob n = cur; model_op(n, op); cur = n; } } }
    Result R = r.run(), T1 = t1.run(), T2 = t2.run(); std::vector<Out> O; for (auto& w : v) O.push_back(w->solve()); double big = 1; for (auto w : R.x) big = std::max(big, fabs((double)w)); for (auto w : R.y) big = std::max(big, fabs((double)w));
    c.log("solve: reference '%s' iter %d", R.info.status, (int)R.info.iter); for (size_t j = 0; j < O.size(); j++) c.log("   %s '%s' iter %g", vars()[j].name, O[j].status, O[j].info[1]);
    for (size_t j = 0; j < O.size(); j++) for (size_t l = 0; l < j; l++) if (vars()[j].a->float_bytes() == vars()[l].a->float_bytes()) {   // index width alone
      D a = O[j].info, b = O[l].info; CHECK(c, O[j].flag == O[l].flag && !strcmp(O[j].status, O[l].status) && bits(a, b) && bits(O[j].x, O[l].x) && bits(O[j].y, O[l].y) && bits(O[j].pc, O[l].pc) && bits(O[j].dc, O[l].dc), "build:index-width", "%s and %s differ in the width of an index alone, but returned '%s' after %g and '%s' after %g iterations or other values", vars()[j].name, vars()[l].name, O[j].status, O[j].info[1], O[l].status, O[l].info[1]); }
    if (!(big < 1e8)) { c.label("diverging"); return; }
    bool firm = T1.st() == R.st() && T2.st() == R.st() && T1.info.iter == R.info.iter && T2.info.iter == R.info.iter && T1.info.rho_updates == R.info.rho_updates && T2.info.rho_updates == R.info.rho_updates && T1.info.status_polish == R.info.status_polish && T2.info.status_polish == R.info.status_polish; if (!firm) { c.label("decision-at-edge"); return; }
    double ax = 1e-8, ay = 1e-8; for (int i = 0; i < cur.n; i++) ax = std::max(ax, std::max(fabs((double)T1.x[i] - R.x[i]), fabs((double)T2.x[i] - R.x[i]))); for (int i = 0; i < cur.m; i++) ay = std::max(ay, std::max(fabs((double)T1.y[i] - R.y[i]), fabs((double)T2.y[i] - R.y[i]))); ax = keepx = std::max(ax, keepx); ay = keepy = std::max(ay, keepy); double sxy = std::max(ax, ay) / pe;
    for (size_t j = 0; j < O.size(); j++) { bool fl = vars()[j].a->float_bytes() == 4; double mu = std::max(0.0, min_eig(denseSym(cur.P), cur.n)) + (double)st.sigma, rM = (double)r.s->settings->rho * (r.s->settings->rho_is_vec ? 1e3 : 1), rm = r.s->settings->rho_is_vec ? 1e-6 : (double)r.s->settings->rho, ye = rM; V rv, DD, EE, Di, Ei; double cc = 1, ci; if (peek_rho(r.s, rv) && !rv.empty()) { rM = rm = rv[0]; for (auto z : rv) { rM = std::max(rM, (double)z); rm = std::min(rm, (double)z); } } if (peek_scaling(r.s, DD, EE, Di, Ei, cc, ci)) { double e = 1; for (auto z : EE) e = std::max(e, (double)z * z); ye = rM * e / cc; }
      Resid Q = residuals(cur, R.x, R.y); double am = 1, dm = 1; for (auto z : cur.P.x) dm = std::max(dm, fabs((double)z) / 100); for (auto z : cur.A.x) dm = std::max(dm, fabs((double)z) / 100); if (!r.s->settings->scaling) for (auto z : cur.A.x) am = std::max(am, fabs((double)z)); facs = std::max(facs, std::max(10.0, std::max(10 * rM * am * am, 0.1 / rm) / std::min(mu, 1.0))); if (r.s->settings->polishing) pol = std::max(pol, 0.1 / (double)r.s->settings->delta); double fac = facs * pol * dm * dm; double zs = (double)std::max(Q.aAx, Q.nAx) + big; double tol = (fl ? 1e-6 : 3e-15) * fac * std::max(big, 10 * sxy) + (fl ? 1e-6 : 1e-14) * ye * zs * 10, ty = tol; int at = 0; Out& w = O[j]; bool plain = st.adaptive_rho == 0 && !st.check_termination && !st.polishing;
      if (grow[j] < 0) continue;
      if (w.st() != R.st() || w.info[1] != (double)R.info.iter || w.info[8] != (double)R.info.rho_updates || w.info[2] != (double)R.info.status_polish) {
        // a decision went the other way: possible where rounding decides; the histories part here
        c.label(plain && R.st() == OSQP_MAX_ITER_REACHED && w.st() == OSQP_MAX_ITER_REACHED ? "impossible" : fl ? "decision-float" : "decision-double");
        if (!fl && tol < 1e-8 * big && r.s->settings->adaptive_rho == 0 && r.s->settings->eps_abs > 1e-5 && w.info[2] == (double)R.info.status_polish) CHECK(c, false, "build:decision", "reference: '%s' after %d iterations, %d step size updates, polishing %d; %s: '%s' after %g, %g, %g", R.info.status, (int)R.info.iter, (int)R.info.rho_updates, (int)R.info.status_polish, vars()[j].name, w.status, w.info[1], w.info[8], w.info[2]);
        grow[j] = -1; continue; }
      if (!st_hassol(R.st())) { c.label(std::string("status:") + st_name(R.st())); grow[j] = -1; continue; }
      if (tol > (fl ? 1e-2 : 1e-6) * big) { c.label("too-sensitive"); grow[j] = -1; continue; }
      CHECK(c, close(w.x, R.x, 0, tol, &at), "build:x", "after %d iterations x[%d] is %.15g in the reference and %.15g in %s, allowed difference %g", (int)R.info.iter, at, (double)R.x[at], w.x[at], vars()[j].name, tol);
      CHECK(c, close(w.y, R.y, 0, ty, &at), "build:y", "after %d iterations y[%d] is %.15g in the reference and %.15g in %s, allowed difference %g", (int)R.info.iter, at, (double)R.y[at], w.y[at], vars()[j].name, ty);
      Resid Z = residuals(cur, R.x, R.y); double sc = (double)(1 + Z.aAx + Z.aAty + Z.aPx + Z.nq + fabsl(Z.xPx) + fabsl(Z.qx) + fabsl(Z.sup)) * (cur.n + cur.m); double dt = ty * sc * 2; const double rr[] = {(double)R.info.obj_val, (double)R.info.dual_obj_val, (double)R.info.prim_res, (double)R.info.dual_res, (double)R.info.duality_gap}; static const char* nm[] = {"obj_val", "dual_obj_val", "prim_res", "dual_res", "duality_gap"};
      if (dt < 1e-1 * sc && R.st() != OSQP_UNSOLVED) for (int z = 0; z < 5; z++) CHECK(c, fabs(w.info[3 + z] - rr[z]) <= dt + 1e-9 + (fl ? 1e-3 : 1e-9) * fabs(rr[z]), (std::string("build:") + nm[z]).c_str(), "after %d iterations %s is %.12g in the reference and %.12g in %s, allowed difference %g", (int)R.info.iter, nm[z], rr[z], w.info[3 + z], vars()[j].name, dt);
      done++; }
  }
  (void)refok; if (done >= 2 && cur.m) c.nontrivial();
}
// known problems: definite outcomes agree with the known class in every build, and solutions lie within the bounds the requested tolerances imply
PROPERTY(C30, outcome, 3, "every build reached a definite outcome on a problem of known class") {
  if (vars().empty()) c.discard();
  GenOpt o; o.well = true; o.scaleRows = s.chance(1, 5); int cls = s.range(0, 4); o.pd = cls == 1 || s.chance(1, 2); Prob p = cls <= 2 ? gen_kkt(s, o) : cls == 3 ? gen_pinf(s, o) : gen_dinf(s, o);
  SetOpt so; so.linsys = false; so.limits = false; so.scaledTerm = false; so.tol = false; so.wild = false; OSQPSettings st = gen_settings(s, so); st.linsys_solver = OSQP_DIRECT_SOLVER; if (st.adaptive_rho == 2) st.adaptive_rho = 1; st.max_iter = 4000; st.allocate_solution = 1; st.time_limit = (OSQPFloat)1e10; st.scaled_termination = 0; if (!st.check_termination) st.check_termination = 25; static const double e[] = {1e-3, 1e-2, 3e-3}; st.eps_abs = (OSQPFloat)e[s.draw(3)]; st.eps_rel = (OSQPFloat)e[s.draw(3)]; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-4; st.sigma = (OSQPFloat)1e-6; if (s.chance(1, 3)) st.sigma = (OSQPFloat)1e-3;
  log_prob(c, p); log_settings(c, st); Osqp r; int f0 = r.setup(p, st); if (f0) c.discard(); Result R = r.run(); bool def = st_solved(R.st()) || st_pinf(R.st()) || st_dinf(R.st()); c.log("reference '%s' %d", R.info.status, (int)R.info.iter);
  bool all = def; // in single precision, rounding alone can look like a certificate when P or the rows have a null space
  bool floatok = min_eig(denseSym(p.P), p.n) > 0.02; if (floatok && p.m) { std::vector<double> A = dense(p.A), G(p.m * p.m); for (int i = 0; i < p.m; i++) for (int j = 0; j < p.m; j++) { double t = 0; for (int k = 0; k < p.n; k++) t += A[i * p.n + k] * A[j * p.n + k]; G[i * p.m + j] = t; } floatok = min_eig(G, p.m) > 1e-3; }
  for (auto& w : vars()) { Sv v(w.a); long long f = v.setup(p, st); CHECK(c, f == 0 || f == OSQP_LINSYS_SOLVER_INIT_ERROR || f == OSQP_NONCVX_ERROR, "build:setup", "osqp_setup returned %lld in %s", f, w.name); if (f) { c.label(std::string("refused:") + w.name); all = false; continue; }
    Out x = v.solve(); int z = x.st(); bool dz = st_solved(z) || st_pinf(z) || st_dinf(z); c.log("%s '%s' %g", w.name, x.status, x.info[1]); c.label(std::string(w.name) + ":" + (dz ? "definite" : "open")); if (!dz) { all = false; continue; }
    if (w.a->float_bytes() == 4 && !floatok) { c.label("float-degenerate"); continue; }
    if (def) CHECK(c, st_solved(z) == st_solved(R.st()) && st_pinf(z) == st_pinf(R.st()) && st_dinf(z) == st_dinf(R.st()), "build:outcome", "'%s' in the reference, '%s' in %s", R.info.status, x.status, w.name);
    if (st_solved(z) && p.hasOpt) { Result t; t.info = R.info; t.info.status_val = (OSQPInt)z; for (auto q : x.x) t.x.push_back((OSQPFloat)q); for (auto q : x.y) t.y.push_back((OSQPFloat)q); Bound b; OSQPSettings tt = *r.s->settings; if (opt_bounds(p, tt, t, b)) { VL Px = mulP(p.P, p.xs); ld fs = dot(p.xs, Px) / 2 + dot(toL(p.q), p.xs); Resid Z = residuals(p, t.x, t.y); ld x1 = 0; for (auto q : x.x) x1 += fabsl((ld)q); ld rnd = w.a->float_bytes() == 4 ? 1e-4L * (1 + fabsl(Z.xPx) + fabsl(Z.qx) + fabsl(Z.sup) + x1 * (Z.nq + Z.nAty + Z.nPx)) : 1e-9L;
      CHECK(c, Z.pobj - fs <= b.up * 1.01L + rnd && Z.pobj - fs >= -b.lo * 1.01L - rnd, "build:optimum", "%s: objective %.9Lg, optimum %.9Lg, tolerances allow +%Lg/-%Lg", w.name, Z.pobj, fs, b.up, b.lo); CHECK(c, fabsl(x.info[3] - fs) <= std::max(b.up, b.lo) * 1.01L + 10 * rnd + 1e-4L * fabsl(fs) * (w.a->float_bytes() == 4), "build:objective", "%s reports the objective %.9g, the optimum is %.9Lg", w.name, x.info[3], fs); } }
  }
  if (all && !vars().empty()) c.nontrivial();
}
// arguments are judged the same way in every build, with the same defaults, codes, messages, limits and stored settings
PROPERTY(C30, arguments, 2, "every build returned the same code for a call with edge values") {
  if (vars().empty()) c.discard();
  GenOpt o; o.well = true; o.pd = true; Prob p = gen_any(s, o); OSQPSettings st = defaults(); D v = set_of(st); int k = 1 + (int)s.draw(SH_NSET - 1); static const double ed[] = {0, -1, 1, 2, 3, 0.5, 1.5, 1e-20, 1e10, -1e-20, 4, 100, 0.75, 1e7}; double w = ed[s.draw(14)]; bool upd = s.chance(1, 2); static const bool isint[SH_NSET] = {1, 1, 1, 1, 1, 1, 1, 0, 1, 0, 0, 1, 1, 0, 1, 1, 1, 0, 0, 1, 0, 0, 0, 0, 1, 1, 1, 0, 0, 1}; if (isint[k]) w = std::min(1e5, std::floor(w)); v[k] = w; if (s.chance(1, 3)) { int k2 = 1 + (int)s.draw(SH_NSET - 1); double w2 = ed[s.draw(14)]; if (isint[k2]) w2 = std::min(1e5, std::floor(w2)); v[k2] = w2; } if (k == 5 && v[5] > 1000) v[5] = 50; v[2] = v[2] == 1 ? 0 : v[2]; v[3] = std::min(v[3], 3.0);
  static const char* nm[] = {
#define F(f) #f,
  SH_SETTINGS(F)
#undef F
  };
  OSQPSettings tt = st; { tt.allocate_solution = (OSQPInt)v[1]; tt.verbose = (OSQPInt)v[2]; tt.profiler_level = (OSQPInt)v[3]; tt.warm_starting = (OSQPInt)v[4]; tt.scaling = (OSQPInt)v[5]; tt.polishing = (OSQPInt)v[6]; tt.rho = v[7]; tt.rho_is_vec = (OSQPInt)v[8]; tt.sigma = v[9]; tt.alpha = v[10]; tt.cg_max_iter = (OSQPInt)v[11]; tt.cg_tol_reduction = (OSQPInt)v[12]; tt.cg_tol_fraction = v[13]; tt.cg_precond = (osqp_precond_type)(int)v[14]; tt.adaptive_rho = (OSQPInt)v[15]; tt.adaptive_rho_interval = (OSQPInt)v[16]; tt.adaptive_rho_fraction = v[17]; tt.adaptive_rho_tolerance = v[18]; tt.max_iter = (OSQPInt)v[19]; tt.eps_abs = v[20]; tt.eps_rel = v[21]; tt.eps_prim_inf = v[22]; tt.eps_dual_inf = v[23]; tt.scaled_termination = (OSQPInt)v[24]; tt.check_termination = (OSQPInt)v[25]; tt.check_dualgap = (OSQPInt)v[26]; tt.time_limit = v[27]; tt.delta = v[28]; tt.polish_refine_iter = (OSQPInt)v[29]; }
  c.log("%s = %g, %s", nm[k], v[k], upd ? "update" : "setup"); Osqp r; long long f0; D s0; if (upd) { if (r.setup(p, st)) c.discard(); f0 = (long long)osqp_update_settings(r.s, &tt); } else f0 = r.setup(p, tt); if (!f0 || upd) s0 = set_of(*r.s->settings);
  for (auto& z : vars()) { Sv q(z.a); long long f; if (upd) { f = q.setup(p, st); CHECK(c, f == 0, "build:setup", "osqp_setup returned %lld in %s", f, z.name); f = z.a->settings(q.h, v.data()); } else f = q.setup(p, tt);
    if (f != f0) { bool ls = f == OSQP_LINSYS_SOLVER_INIT_ERROR || f0 == OSQP_LINSYS_SOLVER_INIT_ERROR || f == OSQP_NONCVX_ERROR || f0 == OSQP_NONCVX_ERROR; CHECK(c, ls && (z.a->float_bytes() == 4 || v[9] < 1e-9 || v[9] > 1e6 || v[7] > 1e6), "build:code", "with %s = %g the reference returned %lld, %s %lld", nm[k], v[k], f0, z.name, f); c.label("factorisation-at-edge"); continue; }
    if (q.h && !s0.empty()) { D g(SH_NSET); z.a->get_settings(q.h, g.data()); for (int i = 0; i < SH_NSET; i++) CHECK(c, fabs(g[i] - s0[i]) <= (z.a->float_bytes() == 4 ? 1e-6 : 0) * fabs(s0[i]), "build:setting", "after the call %s is %.12g in the reference and %.12g in %s", nm[i], s0[i], g[i], z.name); }
    D a(SH_NSET), b = set_of([] { OSQPSettings t; memset(&t, 0, sizeof t); osqp_set_default_settings(&t); return t; }()); z.a->defaults(a.data()); for (int i = 0; i < SH_NSET; i++) if (strcmp(nm[i], "check_dualgap") || z.a->float_bytes() == 8) CHECK(c, fabs(a[i] - b[i]) <= 1e-6 * fabs(b[i]), "build:default", "default %s is %.12g in the reference and %.12g in %s", nm[i], b[i], a[i], z.name);
    for (int e = -1; e < 20; e++) { const char *x = osqp_error_message((OSQPInt)e), *y = z.a->errmsg(e); CHECK(c, (x && y && !strcmp(x, y)) || (!x && !y), "build:message", "message of error %d differs in %s", e, z.name); } CHECK(c, !strcmp(osqp_version(), z.a->version()), "build:version", "version differs in %s", z.name);
    double cc[9], rc[9] = {OSQP_INFTY, OSQP_MAX_SCALING, OSQP_MIN_SCALING, OSQP_RHO_MAX, OSQP_RHO_MIN, OSQP_RHO_TOL, OSQP_RHO_EQ_OVER_RHO_INEQ, 0, 0}; z.a->consts(cc); for (int i = 0; i < 7; i++) CHECK(c, fabs(cc[i] - rc[i]) <= 1e-6 * rc[i], "build:constant", "constant %d is %.12g in the reference and %.12g in %s", i, rc[i], cc[i], z.name); }
  c.nontrivial();
}

// C29: derivatives of the solution.  At a nondegenerate optimum known by construction the solution is, nearby, the solution of
// one linear system; the adjoint of that system, solved here in extended precision, is what the library has to return.
#include "opt.hpp"
#include "path.hpp"
namespace {
struct Ref { VL r, s; std::vector<int> act, side; ld inv = 0, lam = 1e30L, whole = 0, size = 0; };   // whole: inverse of the conditions for all rows, active or not (what the library works with)
ld inv_norm(const std::vector<ld>& K, int N) { VL rs(N, 0), e(N), col; for (int j = 0; j < N; j++) { std::fill(e.begin(), e.end(), 0); e[j] = 1; if (!solve_dense(K, e, N, col)) return 1e30L; for (int i = 0; i < N; i++) rs[i] += fabsl(col[i]); } ld w = 0; for (auto v : rs) w = std::max(w, v); return w; }
  // side: -1 lower, +1 upper, 2 either (an equality without multiplier)
bool reference(const Prob& p, const VL& dx, const VL& dy, Ref& R) {
  int n = p.n; for (int i = 0; i < p.m; i++) if (p.ys[i] != 0 || p.l[i] == p.u[i]) { R.act.push_back(i); R.side.push_back(p.ys[i] > 0 ? 1 : p.ys[i] < 0 ? -1 : 2); if (p.l[i] != p.u[i]) R.lam = std::min(R.lam, fabsl(p.ys[i])); }
  int k = (int)R.act.size(), N = n + k; if (k > n) return false; std::vector<ld> K((size_t)N * N, 0); std::vector<double> dP = denseSym(p.P), dA = dense(p.A); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K[i * N + j] = dP[i * n + j]; for (int t = 0; t < k; t++) for (int j = 0; j < n; j++) K[j * N + n + t] = K[(n + t) * N + j] = dA[R.act[t] * n + j];
  VL b(N), w; for (int j = 0; j < n; j++) b[j] = dx[j]; for (int t = 0; t < k; t++) b[n + t] = dy[R.act[t]]; if (!solve_dense(K, b, N, w)) return false; R.r.assign(w.begin(), w.begin() + n); R.s.assign(w.begin() + n, w.end());
  R.inv = inv_norm(K, N); struct Q { int i; ld sg, lam, sl; bool eq; }; std::vector<Q> g; VL Ax = mulA(p.A, p.xs); for (int i = 0; i < p.m; i++) { if (p.l[i] == p.u[i]) { g.push_back({i, 1, 1, 0, true}); continue; } if (!is_inf_bound(p.l[i])) g.push_back({i, -1, p.ys[i] < 0 ? -p.ys[i] : 0, p.ys[i] < 0 ? 0 : p.l[i] - Ax[i], false}); if (!is_inf_bound(p.u[i])) g.push_back({i, 1, p.ys[i] > 0 ? p.ys[i] : 0, p.ys[i] > 0 ? 0 : Ax[i] - p.u[i], false}); }
  int M = n + (int)g.size(); std::vector<ld> W((size_t)M * M, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) W[i * M + j] = dP[i * n + j]; for (size_t t = 0; t < g.size(); t++) { for (int j = 0; j < n; j++) { ld a = g[t].sg * dA[g[t].i * n + j]; W[(n + t) * M + j] = a; W[j * M + n + t] = a * g[t].lam; } W[(n + t) * M + n + t] = g[t].sl; } R.whole = inv_norm(W, M); for (auto v : W) R.size = std::max(R.size, fabsl(v)); return true; }
// a strictly convex problem with a nondegenerate optimum: independent active rows, nonzero multipliers, slack elsewhere
bool nondegenerate(const Prob& p) { if (!p.strict || !p.hasOpt) return false; std::vector<int> a; for (int i = 0; i < p.m; i++) if (p.ys[i] != 0 || p.l[i] == p.u[i]) a.push_back(i); if ((int)a.size() > p.n) return false; for (int i : a) if (fabsl(p.ys[i]) < 0.01L && p.ys[i] != 0) return false; if (a.empty()) return true;
  std::vector<double> d = dense(p.A); int k = (int)a.size(); std::vector<double> G(k * k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int t = 0; t < p.n; t++) G[i * k + j] += d[a[i] * p.n + t] * d[a[j] * p.n + t]; return min_eig(G, k) > 0.02; }
OSQPSettings tight(Src& s) { OSQPSettings st = defaults(); const bool dbl = sizeof(OSQPFloat) == 8; st.eps_abs = st.eps_rel = (OSQPFloat)(dbl ? 1e-10 : 1e-6); st.max_iter = 30000; st.polishing = s.chance(1, 2); if (s.chance(1, 3)) st.scaling = s.range(0, 15); if (s.chance(1, 3)) st.rho_is_vec = 0; if (s.chance(1, 4)) st.adaptive_rho = 0; if (s.chance(1, 4)) st.alpha = (OSQPFloat)(s.range(2, 19) / 10.0); if (s.chance(1, 6)) st.warm_starting = 0; return st; }
VL direction(Src& s, int n) { VL d(n); int k = s.range(0, 3); if (k == 0) return d; if (k == 1 && n) { d[s.range(0, n - 1)] = 1; return d; } for (auto& v : d) v = s.range(-8, 8) / 4.0; return d; }
struct Grad { Csc P, A; V dq, dl, du; int code[3]; };
// any set of entries can be asked for, in the problem's pattern or not
Csc pattern(Src& s, const Csc& M, int kind) { if (!kind) { Csc r = M; for (auto& v : r.x) v = 777; return r; } Csc r; r.m = M.m; r.n = M.n; r.p.push_back(0); for (int j = 0; j < M.n; j++) { for (int i = 0; i < M.m; i++) if (kind == 1 || s.chance(1, 2)) { r.i.push_back((OSQPInt)i); r.x.push_back(777); } r.p.push_back((OSQPInt)r.i.size()); } return r; }
Grad grads(Osqp& q, const Prob& p, const VL& dx, const VL& dy, Csc P, Csc A) {
  Grad g; V a = toF(dx), b = toF(dy); a.resize(p.n + 1); b.resize(p.m + 1); V a0 = a, b0 = b; g.code[0] = (int)osqp_adjoint_derivative_compute(q.s, a.data(), b.data()); if (a != a0 || b != b0) g.code[0] = 999; g.P = P; g.A = A; OSQPCscMatrix mp = g.P.view(), ma = g.A.view(); g.code[1] = (int)osqp_adjoint_derivative_get_mat(q.s, &mp, &ma); g.dq.assign(p.n + 1, 777); g.dl.assign(p.m + 1, 777); g.du.assign(p.m + 1, 777); g.code[2] = (int)osqp_adjoint_derivative_get_vec(q.s, g.dq.data(), g.dl.data(), g.du.data()); return g; }
std::string same(const V& a, const V& b, const char* n) { for (size_t i = 0; i < a.size(); i++) if (memcmp(&a[i], &b[i], sizeof(OSQPFloat))) { char t[96]; snprintf(t, sizeof t, "%s[%d] %.17g, %.17g", n, (int)i, (double)a[i], (double)b[i]); return t; } return ""; }
void judge(Ctx& c, const Prob& p, const VL& dx, const VL& dy, const Grad& g, ld eps) {
  Ref R; if (!reference(p, dx, dy, R)) c.discard(); if (R.whole > 100 || R.size > 1e3L) { c.label("ill-conditioned"); c.discard(); }   // the library regularises by 1e-6 and refines
  if (sizeof(OSQPFloat) == 4 && g.code[0] == OSQP_LINSYS_SOLVER_INIT_ERROR) { c.label("singular-in-single"); c.discard(); }   
  for (int k = 0; k < 3; k++) CHECK(c, g.code[k] == 0, "derivative:code", "call %d returned %d", k, g.code[k]);
  ld big = 1 + ninf(dx) + ninf(dy), xs = 1 + ninf(p.xs), ys = 1 + ninf(p.ys), tol = eps * R.whole * std::max(R.whole, (ld)1) * big * xs * ys / std::min((ld)1, R.lam); VL s(p.m, 0); std::vector<int> side(p.m, 0); for (size_t t = 0; t < R.act.size(); t++) { s[R.act[t]] = R.s[t]; side[R.act[t]] = R.side[t]; }
  c.log("inverse %Lg, smallest multiplier %Lg, tolerance %Lg", R.inv, R.lam, tol); if (sizeof(OSQPFloat) == 4 && tol > 0.5L) c.discard();   // single precision says nothing here
  ld worst = 0; const char* where = ""; char msg[200] = ""; auto cmp = [&](ld got, ld want, const char* n, int i) { ld e = fabsl(got - want); if (!(e <= worst)) { worst = e; where = n; snprintf(msg, sizeof msg, "%s[%d] is %.12Lg, the derivative is %.12Lg", n, i, got, want); } };
  for (int j = 0; j < p.n; j++) cmp(g.dq[j], -R.r[j], "dq", j);
  for (int i = 0; i < p.m; i++) { if (side[i] == 2) { cmp((ld)g.dl[i] + g.du[i], s[i], "dl + du", i); CHECK(c, g.dl[i] == 0 || g.du[i] == 0, "derivative:value", "row %d: dl %g and du %g", i, (double)g.dl[i], (double)g.du[i]); continue; } cmp(g.dl[i], side[i] < 0 ? s[i] : 0, "dl", i); cmp(g.du[i], side[i] > 0 ? s[i] : 0, "du", i); }
  for (int j = 0; j < p.n; j++) for (int k = (int)g.P.p[j]; k < (int)g.P.p[j + 1]; k++) { int i = (int)g.P.i[k]; cmp(g.P.x[k], -0.5L * (R.r[i] * p.xs[j] + R.r[j] * p.xs[i]), "dP", k); }
  for (int j = 0; j < p.n; j++) for (int k = (int)g.A.p[j]; k < (int)g.A.p[j + 1]; k++) { int i = (int)g.A.i[k]; cmp(g.A.x[k], side[i] ? -(R.r[j] * p.ys[i] + s[i] * p.xs[j]) : 0, "dA", k); }
  if (const char* f = getenv("VH_ERR")) { FILE* o = fopen(f, "a"); fprintf(o, "ERR %Lg inv %Lg lam %Lg ratio %Lg %s\n", worst, R.inv, R.lam, worst / tol, where); fclose(o); }
  CHECK(c, worst <= tol, "derivative:value", "%s, allowed difference %Lg", msg, tol);
  CHECK(c, g.dq[p.n] == 777 && g.dl[p.m] == 777 && g.du[p.m] == 777, "derivative:overrun", "wrote past the end of an output");
  if (!R.act.empty()) c.nontrivial(); }
const ld EPS = sizeof(OSQPFloat) == 8 ? 1e-8L : 2e-4L;
void log_dir(Ctx& c, const VL& dx, const VL& dy) { for (size_t j = 0; j < dx.size(); j++) c.log("dx[%zu] %Lg", j, dx[j]); for (size_t j = 0; j < dy.size(); j++) c.log("dy[%zu] %Lg", j, dy[j]); }
std::string diff(const Grad& a, const Grad& b) { for (int k = 0; k < 3; k++) if (a.code[k] != b.code[k]) return "return codes"; std::string r; for (auto d : {same(a.dq, b.dq, "dq"), same(a.dl, b.dl, "dl"), same(a.du, b.du, "du"), same(a.P.x, b.P.x, "dP"), same(a.A.x, b.A.x, "dA")}) if (r.empty()) r = d; return r; }
void some(Ctx& c, Src& s, Osqp& q, const Prob& p) { int k = s.range(1, 3); for (int i = 0; i < k; i++) { VL dx = direction(s, p.n), dy = direction(s, p.m); Csc P = pattern(s, p.P, s.chance(2, 3) ? 0 : s.range(1, 2)), A = pattern(s, p.A, s.chance(2, 3) ? 0 : s.range(1, 2)); log_dir(c, dx, dy); Grad g = grads(q, p, dx, dy, P, A); judge(c, p, dx, dy, g, EPS); if (s.chance(1, 4)) { std::string d = diff(g, grads(q, p, dx, dy, P, A)); CHECK(c, d.empty(), "derivative:repeat", "asked twice, different answers: %s", d.c_str()); } } }
}
PROPERTY(C29, value, 6, "the derivatives were compared at an optimum with at least one active constraint") {
  GenOpt o; o.well = true; o.pd = true; o.scaleRows = s.chance(1, 5); Prob p = gen_kkt(s, o); if (!nondegenerate(p)) c.discard(); OSQPSettings st = tight(s); log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); Result r = q.run(); if (r.st() != OSQP_SOLVED) { c.label("not-solved"); c.discard(); }
  some(c, s, q, p); }
// the problem reached by updates, with derivatives asked for on the way
PROPERTY(C29, history, 4, "the derivatives were compared after at least one update, at an optimum with at least one active constraint") {
  GenOpt o; o.well = true; o.pd = true; o.scaleRows = false; Prob p = gen_kkt(s, o), start; if (!nondegenerate(p)) c.discard(); std::vector<Op> ops; path_to(s, p, start, ops, true); OSQPSettings st = tight(s); log_prob(c, start); log_settings(c, st); Osqp q; if (q.setup(start, st)) c.discard(); q.s->settings->max_iter = 30000;
  for (auto& x : ops) { log_op(c, x); if (x.k == O_SOLVE) { OSQPSettings t = *q.s->settings; t.max_iter = 300; osqp_update_settings(q.s, &t); } int f = apply_op(q, x); if (f && x.k != O_SOLVE) { c.label("refused"); c.discard(); } if (s.chance(1, 3)) { VL dx = direction(s, p.n), dy = direction(s, p.m); grads(q, p, dx, dy, p.P, p.A); } }
  OSQPSettings t = *q.s->settings; t.max_iter = 30000; osqp_update_settings(q.s, &t); Result r = q.run(); if (r.st() != OSQP_SOLVED) { c.label("not-solved"); c.discard(); } some(c, s, q, p); }
// asking for derivatives, whatever the state of the solver, changes nothing else
PROPERTY(C29, inert, 3, "derivatives were asked for at least once between solves") {
  GenOpt g; Prob p = gen_any(s, g); SetOpt so; so.linsys = false; so.timed = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2 && !st.adaptive_rho_interval) st.adaptive_rho_interval = 10; st.max_iter = std::min((int)st.max_iter, 300); log_prob(c, p); log_settings(c, st); Osqp q, w; if (q.setup(p, st)) c.discard(); if (w.setup(p, st)) c.discard(); Prob cur = p; OpOpt oo; oo.so = so; int k = s.range(1, 6); bool done = false;
  for (int i = 0; i < k; i++) { Op x; if (i % 2) x = gen_op(s, cur, st, oo); if (x.k == O_SET) { x.st.max_iter = std::min((int)x.st.max_iter, 300); if (x.st.adaptive_rho == 2) x.st.adaptive_rho = 1; } log_op(c, x); model_op(cur, x); int a = apply_op(q, x), b = apply_op(w, x); CHECK(c, a == b, "derivative:disturbs", "%s returns %d with derivatives computed before, %d without", op_name(x.k), a, b);
    if (a) break;
    if (x.k == O_SOLVE) { std::string d = diff_results(w.get(), q.get(), 0, 0); CHECK(c, d.empty(), "derivative:disturbs", "solve after derivatives: %s", d.c_str()); if (s.chance(2, 3)) { VL dx = direction(s, p.n), dy = direction(s, p.m); Result r0 = q.get(); Grad m = grads(q, p, dx, dy, pattern(s, p.P, 0), pattern(s, p.A, 0)), n = grads(q, p, dx, dy, pattern(s, p.P, 0), pattern(s, p.A, 0)); std::string e = diff(m, n); bool nan = !st_solved(r0.st()); CHECK(c, nan || e.empty(), "derivative:repeat", "asked twice, different answers: %s", e.c_str()); d = diff_results(r0, q.get(), 0, 0); CHECK(c, d.empty(), "derivative:disturbs", "stored result changed: %s", d.c_str()); d = settings_diff(*w.s->settings, *q.s->settings); CHECK(c, d.empty(), "derivative:disturbs", "settings changed: %s", d.c_str()); done = true; } } }
  q.cleanup(); if (done) c.nontrivial(); }
PROPERTY(C29, refused, 1, "always") {
  GenOpt g; Prob p = gen_any(s, g); OSQPSettings st = defaults(); st.allocate_solution = 0; st.max_iter = 200; log_prob(c, p); VL dx = direction(s, p.n), dy = direction(s, p.m); Osqp none; bool null = s.chance(1, 3); Osqp q; if (!null) { if (q.setup(p, st)) c.discard(); if (s.chance(1, 2)) q.solve(); }
  Grad r = grads(q, p, dx, dy, pattern(s, p.P, 0), pattern(s, p.A, 0)); CHECK(c, r.code[0] == OSQP_WORKSPACE_NOT_INIT_ERROR && r.code[1] == OSQP_WORKSPACE_NOT_INIT_ERROR, "derivative:refusal", "%s: the calls returned %d %d %d", null ? "no solver" : "no stored solution", r.code[0], r.code[1], r.code[2]); CHECK(c, !null || r.code[2] == OSQP_WORKSPACE_NOT_INIT_ERROR, "derivative:refusal", "no solver: the vectors were returned with %d", r.code[2]);
  for (auto v : r.P.x) CHECK(c, v == 777, "derivative:refusal", "dP written by a refused call"); for (auto v : r.A.x) CHECK(c, v == 777, "derivative:refusal", "dA written by a refused call"); c.nontrivial(); }
// every allocation made while computing fails in turn
PROPERTY(C29, memory, 1, "at least ten allocations were failed in turn") {
  GenOpt o; o.nmax = 5; o.mmax = 6; o.well = true; o.pd = true; o.scaleRows = false; Prob p = gen_kkt(s, o); OSQPSettings st = tight(s); st.max_iter = 2000; log_prob(c, p); vmem_reset(); vclk_virtual(1000, 1e-6); long total = 0; VL dx = direction(s, p.n), dy = direction(s, p.m); Csc P = pattern(s, p.P, 0), A = pattern(s, p.A, 0);
  { Osqp q; if (q.setup(p, st)) c.discard(); q.run(); vmem_fail_at(0, 0); long live = vmem_live(); Grad ref = grads(q, p, dx, dy, P, A); CHECK(c, vmem_live() == live, "derivative:leak", "%ld blocks are kept after computing derivatives", vmem_live() - live); CHECK(c, vmem_bad() == 0, "derivative:free", "%ld bad releases", vmem_bad()); total = vmem_count();
    for (int sticky = 0; sticky < 2; sticky++) for (long k = 1; k <= total; k++) { vmem_fail_at(k, sticky); Grad g = grads(q, p, dx, dy, P, A); bool hit = vmem_failed() > 0; vmem_fail_at(0, 0); if (!hit) break; CHECK(c, g.code[0] || g.code[1] || g.code[2], "derivative:oom", "allocation %ld of %ld failed%s, every call returned 0", k, total, sticky ? " with all later ones" : ""); CHECK(c, vmem_live() == live, "derivative:leak", "allocation %ld failed: %ld blocks kept", k, vmem_live() - live); CHECK(c, vmem_bad() == 0, "derivative:free", "allocation %ld failed: %ld bad releases", k, vmem_bad()); std::string d = diff(ref, grads(q, p, dx, dy, P, A)); CHECK(c, d.empty(), "derivative:aftermath", "after a failed allocation the derivatives differ: %s", d.c_str()); } }
  CHECK(c, vmem_live() == 0, "derivative:leak", "%ld blocks survive cleanup", vmem_live()); if (total >= 10) c.nontrivial(); }

// C28: code generation.  A solver with a random past is exported, the emitted files are compiled together with the sources the
// build provides for that purpose, and the program that results goes through the same further history as the exporting solver.
#include "opt.hpp"
#include "cgshim.h"
#include <dlfcn.h>
#include <memory>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <cctype>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
namespace {
typedef std::vector<double> D; typedef std::vector<long long> LL;
D d(const V& v) { return D(v.begin(), v.end()); } LL li(const VI& v) { return LL(v.begin(), v.end()); }
D set_of(const OSQPSettings& t) { D v;
#define F(f) v.push_back((double)t.f);
  SH_SETTINGS(F)
#undef F
  return v; }
std::string env(const char* k) { const char* e = getenv(k); return e ? e : ""; }
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
bool exists(const std::string& f) { struct stat b; return !stat(f.c_str(), &b); }
int run(const std::string& cmd, std::string* out = nullptr) { std::string f = out ? " >.out 2>&1" : " >/dev/null 2>&1"; int r = system(("( " + cmd + " )" + f).c_str()); if (out) *out = slurp(".out"); return WIFEXITED(r) ? WEXITSTATUS(r) : 128 + WTERMSIG(r); }
std::string first_error(const std::string& o) { std::istringstream i(o); std::string l; while (std::getline(i, l)) if (l.find("error") != std::string::npos || l.find("undefined") != std::string::npos) return l.substr(0, 220); return o.substr(0, 220); }
std::vector<std::string> listing(const std::string& dir) { std::vector<std::string> r; DIR* h = opendir(dir.c_str()); if (!h) return r; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(h); std::sort(r.begin(), r.end()); return r; }
// a scratch directory that is the working directory while it exists
struct Scratch { std::string dir, back; Scratch() { std::string b = env("VH_CG_TMP"); if (b.empty()) b = "/tmp"; std::string t = b + "/cgXXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0); if (!mkdtemp(v.data())) abort(); dir = v.data(); char w[4096]; back = getcwd(w, sizeof w) ? w : "/"; if (chdir(dir.c_str())) abort(); }
  ~Scratch() { if (chdir(back.c_str())) {} wipe(dir); }
  static void wipe(const std::string& p) { DIR* h = opendir(p.c_str()); if (h) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string q = p + "/" + n; struct stat b; if (!lstat(q.c_str(), &b) && S_ISDIR(b.st_mode)) wipe(q); else unlink(q.c_str()); } closedir(h); } rmdir(p.c_str()); } };
std::string no_comments(const std::string& t) { std::string r; for (size_t i = 0; i < t.size(); i++) { if (!t.compare(i, 2, "/*")) { size_t e = t.find("*/", i + 2); i = e == std::string::npos ? t.size() : e + 1; continue; } r += t[i]; } return r; }
uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
// the sources that do not depend on the problem, compiled once per configuration that is emitted
struct Emb { std::string dir, err; bool ok = false; };
Emb library(const std::string& configure) {
  Emb e; char h[64]; snprintf(h, sizeof h, "%016llx", (unsigned long long)fnv(no_comments(configure) + env("VH_CG_HASH") + env("VH_CG_CC"))); std::string base = env("VH_CG_CACHE"); e.dir = base + "/" + h; std::string src = env("VH_CG_SRC");
  int lk = open((e.dir + ".lock").c_str(), O_CREAT | O_RDWR, 0644); if (lk < 0) { e.err = "no cache"; return e; } flock(lk, LOCK_EX);
  if (!exists(e.dir + "/done")) { mkdir(e.dir.c_str(), 0755); { std::ofstream o(e.dir + "/osqp_configure.h"); o << configure; }
    std::string cmd = "cd " + e.dir + " && ls " + src + "/src/*.c " + env("VH_CG_SHIM") + "/cgshim.c | xargs -P4 -I{} sh -c '" + env("VH_CG_CC") + " -w -fPIC -fvisibility=hidden -I. -I" + src + "/inc/public -I" + src + "/inc/private -I" + env("VH_CG_SHIM") + " -c {} -o $(basename {}).o' >log 2>&1 && rm -f libemb.a && ar rcs libemb.a $(ls *.c.o | grep -v cgshim)";
    int r = run(cmd); std::ofstream o(e.dir + "/done"); o << r << "\n"; }
  e.ok = atoi(slurp(e.dir + "/done").c_str()) == 0; if (!e.ok) e.err = first_error(slurp(e.dir + "/log")); flock(lk, LOCK_UN); close(lk); return e; }
struct Prog { void* h = nullptr; const cg_api* a = nullptr; std::string err; Prog() {} Prog(const Prog&) = delete; ~Prog() { if (h) dlclose(h); }
  bool load(const std::string& dir, const std::string& out, const std::vector<std::string>& prefixes) {   // compile what was emitted into `out` (empty: here)
    Emb e = library(slurp(out + "osqp_configure.h")); if (!e.ok) { err = e.err; return false; }
    { std::ofstream t(dir + "/tab.c"); t << "#include \"osqp.h\"\n"; for (auto& p : prefixes) t << "#include \"" << p << "workspace.h\"\n"; t << "OSQPSolver* const cg_tab[] = {"; for (auto& p : prefixes) t << "&" << p << "solver, "; t << "};\nconst int cg_n = " << prefixes.size() << ";\n"; }
    std::string src = env("VH_CG_SRC"), so = dir + "/case.so", log, cmd = env("VH_CG_CC") + " -w -g0 -O0 -fPIC -shared -fvisibility=hidden -Wl,-Bsymbolic -I" + (out.empty() ? "." : out) + " -I" + src + "/inc/public -I" + src + "/inc/private " + dir + "/tab.c"; for (auto& p : prefixes) cmd += " " + out + p + "workspace.c"; cmd += " " + e.dir + "/cgshim.c.o " + e.dir + "/libemb.a -lm -o " + so;
    if (::run(cmd, &log)) { err = first_error(log); return false; }
    h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { err = dlerror(); return false; } auto g = (const cg_api* (*)())dlsym(h, "cg_get"); if (!g) { err = "no entry"; return false; } a = g(); return true; } };
struct Out { long long flag = 0; D info = D(SH_NINFO), x, y; char status[32] = {0}; int st() const { return (int)info[0]; } };
Out gsolve(const cg_api* a, int k, int n, int m) { Out r; r.x.resize(n + 1); r.y.resize(m + 1); r.flag = a->solve(k, r.info.data(), r.x.data(), r.y.data(), r.status); r.x.resize(n); r.y.resize(m); return r; }
long long gapply(const cg_api* a, int k, const Op& o) { switch (o.k) {
  case O_VEC: { D q = d(o.q), l = d(o.l), u = d(o.u); return a->vec(k, o.hq ? q.data() : nullptr, o.hl ? l.data() : nullptr, o.hu ? u.data() : nullptr); }
  case O_MAT: { D Px = d(o.Px), Ax = d(o.Ax); LL Pi = li(o.Pi), Ai = li(o.Ai); return a->mat(k, o.hP ? Px.data() : nullptr, o.hP && !o.pall ? Pi.data() : nullptr, o.hP ? (long long)Px.size() : 0, o.hA ? Ax.data() : nullptr, o.hA && !o.aall ? Ai.data() : nullptr, o.hA ? (long long)Ax.size() : 0); }
  case O_SET: { D s = set_of(o.st); return a->settings(k, s.data()); } case O_RHO: return a->rho(k, o.rho); case O_WARM: { D x = d(o.x), y = d(o.y); return a->warm(k, o.hx ? x.data() : nullptr, o.hy ? y.data() : nullptr); } case O_COLD: a->cold(k); return 0; default: return 0; } }
const char* SN[] = {
#define F(f) #f,
  SH_SETTINGS(F)
#undef F
};
const int MYFLOAT = sizeof(OSQPFloat) == 4;
OSQPCodegenDefines gen_defs(Src& s, int mode, int flt) { OSQPCodegenDefines f; osqp_set_default_codegen_defines(&f); f.embedded_mode = mode; f.float_type = flt; f.printing_enable = s.chance(1, 4); f.profiling_enable = s.chance(1, 5); f.interrupt_enable = s.chance(1, 6); return f; }
void log_defs(Ctx& c, const OSQPCodegenDefines& f, const std::string& pre) { c.log("generate: mode %d float %d printing %d profiling %d interrupt %d prefix '%s'", (int)f.embedded_mode, (int)f.float_type, (int)f.printing_enable, (int)f.profiling_enable, (int)f.interrupt_enable, pre.substr(0, 60).c_str()); }
struct Past { Prob cur; std::unique_ptr<Osqp> q; bool ok = true; };
// a solver with a random past
Past past(Src& s, Ctx& c, bool wild) {
  Past r; GenOpt o; o.well = !s.chance(1, 4); o.scaleRows = s.chance(1, 3); o.pd = s.chance(1, 2); Prob p = s.chance(1, 2) ? gen_any(s, o) : s.chance(1, 2) ? gen_kkt(s, o) : gen_feas(s, o); SetOpt so; so.linsys = false; so.limits = false; so.wild = wild; OSQPSettings st = gen_settings(s, so);
  st.linsys_solver = OSQP_DIRECT_SOLVER; st.verbose = 0; st.time_limit = (OSQPFloat)1e10; st.max_iter = s.range(1, 200); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) st.adaptive_rho = OSQP_ADAPTIVE_RHO_UPDATE_ITERATIONS; if (st.adaptive_rho_interval == 0 && st.adaptive_rho) st.adaptive_rho_interval = s.range(1, 50); st.allocate_solution = !s.chance(1, 8);
  log_prob(c, p); log_settings(c, st); r.q.reset(new Osqp); if (r.q->setup(p, st)) c.discard(); r.cur = p; OpOpt oo; oo.so = so; oo.moderate = s.chance(2, 3); int k = s.range(0, 4);
  for (int i = 0; i < k; i++) { Op op = gen_op(s, r.cur, st, oo); if (op.k == O_SET) { op.st.linsys_solver = OSQP_DIRECT_SOLVER; op.st.verbose = 0; op.st.time_limit = (OSQPFloat)1e10; op.st.max_iter = s.range(1, 200); } log_op(c, op); int f = apply_op(*r.q, op); if ((op.k == O_VEC || op.k == O_MAT || op.k == O_RHO) && f) { r.ok = false; c.label("past-refused"); return r; } if (!f) model_op(r.cur, op); }
  return r; }
std::string gen_prefix(Src& s) { static const char* p[] = {"p_", "", "prob0_", "Mixed_Case9", "x", "a_rather_long_but_perfectly_good_prefix_for_a_generated_solver_"}; return p[s.draw(6)]; }
std::string gen_out(Src& s, const std::string& dir) { int k = (int)s.draw(3); if (k == 0) return ""; if (mkdir("sub", 0755)) {} return k == 1 ? "sub/" : dir + "/sub/"; }
// what a program claims about a point, when the iterates behind it are out of sight
void judge(Ctx& c, const Prob& p, const OSQPSettings& st, const Result& r) {
  if (st.scaled_termination && st.scaling) return;
  Resid R = residuals(p, r.x, r.y); ld fa = r.st() == OSQP_SOLVED_INACCURATE ? 10 : 1, ea = fa * st.eps_abs, er = fa * st.eps_rel, un = MYFLOAT ? 1e-3L : 1e-7L;
  ld tp = ea + er * std::max(R.nAx, R.nAx + R.pdist) + un * (1 + R.aAx) * fa, td = ea + er * std::max(R.nq, std::max(R.nAty, R.nPx)) + un * (1 + R.aAty + R.aPx + R.nq) * fa;
  CHECK(c, R.pdist <= tp * 1.1L && R.dres <= td * 1.1L, "codegen:solved", "'%s' with residuals %Lg and %Lg, allowed %Lg and %Lg", r.info.status, R.pdist, R.dres, tp, td); }
bool nonfinite(const Result& r) { for (auto v : r.x) if (!std::isfinite((double)v)) return true; for (auto v : r.y) if (!std::isfinite((double)v)) return true; return false; }
}
// the generated program takes over where the exporting solver is, with the same numbers
PROPERTY(C28, twin, 60, "the generated program was compiled, run and compared with the exporting solver over at least two solves of a problem with constraints") {
  if (env("VH_CG_SRC").empty()) c.discard();
  int cnt = s.chance(1, 6) ? 2 : 1, mode = s.chance(1, 2) ? 2 : 1; std::vector<Past> P; std::vector<std::string> pre; OSQPCodegenDefines defs = gen_defs(s, mode, MYFLOAT); Scratch dir; std::string out = gen_out(s, dir.dir);
  for (int i = 0; i < cnt; i++) { P.push_back(past(s, c, s.chance(1, 4))); if (!P.back().ok) c.discard(); std::string p = gen_prefix(s); if (i && p == pre[0]) p += "second_"; pre.push_back(p); }
  for (int i = 0; i < cnt; i++) { Osqp& q = *P[i].q; log_defs(c, defs, pre[i]); D before = set_of(*q.s->settings); Result b = q.get(); int f = (int)osqp_codegen(q.s, out.c_str(), pre[i].c_str(), &defs); if (b.st() == OSQP_NON_CVX) { CHECK(c, f == OSQP_NONCVX_ERROR, "codegen:nonconvex", "exporting a solver found to be non-convex returned %d", f); CHECK(c, listing(out.empty() ? "." : out).empty() || i, "codegen:refused-but-wrote", "a refused export left files behind"); c.label("nonconvex"); return; }
    CHECK(c, f == 0, "codegen:refused", "osqp_codegen returned %d", f); Result a = q.get(); D after = set_of(*q.s->settings); double lo = q.s->settings->allocate_solution ? 0 : 1e-6; /* without stored results every retrieval normalises the certificates anew */ std::string df = diff_results(a, b, lo, 0); CHECK(c, df.empty() && !memcmp(before.data(), after.data(), before.size() * sizeof(double)), "codegen:changed-solver", "generating code changed the solver: %s", df.c_str()); }
  for (auto& p : pre) for (auto* x : {"workspace.c", "workspace.h"}) CHECK(c, exists(out + p + x), "codegen:missing-file", "%s%s was not written", p.c_str(), x);
  Prog g; bool ld_ = g.load(dir.dir, out, pre); CHECK(c, ld_, "codegen:does-not-compile", "the generated code does not compile: %s", g.err.c_str());
  const cg_api* a = g.a; CHECK(c, a->mode == mode && a->float_bytes == (int)sizeof(OSQPFloat), "codegen:configuration", "generated for mode %d, %d byte numbers: compiled as mode %d, %d", mode, (int)sizeof(OSQPFloat), a->mode, a->float_bytes);
  if (env("VH_CG_HOOKS").size()) {} a->toc(0, 1e-6); a->interrupt(0); int solves = 0; bool big = false;
  struct St { bool apart = false; long long base = 0; V rv; }; std::vector<St> S(cnt);
  for (int i = 0; i < cnt; i++) { Osqp& q = *P[i].q; OSQPSettings* t = q.s->settings; t->polishing = 0; if (mode == 1) t->adaptive_rho = 0; long long m, n; a->dims(i, &m, &n); CHECK(c, m == q.m && n == q.n, "codegen:dimensions", "generated program has %lld constraints and %lld variables, the problem %d and %d", m, n, q.m, q.n);
    D e = set_of(*t), z(SH_NSET); a->get_settings(i, z.data()); e[1] = 1; e[2] = e[3] = e[6] = 0; e[0] = 1; for (int k = 0; k < SH_NSET; k++) if (!(mode == 1 && !strncmp(SN[k], "adaptive_rho", 12)) && strcmp(SN[k], "adaptive_rho_interval")) CHECK(c, same_float(e[k], z[k]), "codegen:setting", "%s is %.17g in the solver and %.17g in the generated program", SN[k], e[k], z[k]);
    S[i].base = q.s->info->rho_updates; peek_rho(q.s, S[i].rv); }
  int k = s.range(1, 5); OpOpt oo; oo.so.linsys = false; oo.so.limits = false; oo.so.wild = false; oo.moderate = true; if (mode == 1) oo.wMat = oo.wRho = 0;
  for (int step = 0; step < k; step++) for (int i = 0; i < cnt; i++) { Osqp& q = *P[i].q; Prob& cur = P[i].cur;
    int no = step ? s.range(0, 2) : s.range(0, 1);
    for (int z = 0; z < no; z++) { Op op = gen_op(s, cur, *q.s->settings, oo); if (op.k == O_SOLVE || op.k == O_GET) continue; if (op.k == O_SET) { op.st.linsys_solver = OSQP_DIRECT_SOLVER; op.st.verbose = 0; op.st.polishing = 0; op.st.time_limit = (OSQPFloat)1e10; op.st.max_iter = s.range(1, 200); op.st.adaptive_rho = q.s->settings->adaptive_rho; }
      bool bad = s.chance(1, 12) && op.k == O_VEC && cur.m; if (bad) { op.hl = op.hu = true; op.l = cur.l; op.u = cur.u; int r = s.range(0, cur.m - 1); op.l[r] = 1; op.u[r] = 0; }
      log_op(c, op); int f = apply_op(q, op); long long h = gapply(a, i, op); bool sure = op.k != O_MAT && op.k != O_RHO; if (op.k == O_MAT && f && h) { c.label("matrix-update-refused"); return; } if (f != h && S[i].apart && !sure) { c.label("apart-refusal"); return; } CHECK(c, f == h, "codegen:code", "%s returned %d from the solver and %lld from the generated program", op_name(op.k), f, h); if (!f) { model_op(cur, op); if (op.k == O_MAT || op.k == O_VEC) S[i].base = q.s->info->rho_updates; } 
      if (op.k == O_VEC || op.k == O_MAT) { // reset_info sets both counters to zero (mode 1 does not have one)
        if (!f) S[i].base = 0; } 
      if (mode == 1 && op.k == O_VEC && !f) { V r; if (peek_rho(q.s, r) && (r.size() != S[i].rv.size() || (r.size() && memcmp(r.data(), S[i].rv.data(), r.size() * sizeof(OSQPFloat))))) { S[i].apart = true; S[i].rv = r; c.label("types-changed-in-mode-1"); } } }
    Result R = q.run(); Out o = gsolve(a, i, q.n, q.m); c.log("solve %d: solver '%s' iter %d, generated '%s' iter %g", i, R.info.status, (int)R.info.iter, o.status, o.info[1]); solves++; if (q.m) big = true; if (R.flag && R.st() == OSQP_UNSOLVED && !S[i].apart) { CHECK(c, o.flag == R.flag && o.st() == R.st(), "codegen:outcome", "solver: code %d '%s', generated program: code %lld '%s'", R.flag, R.info.status, o.flag, o.status); c.label("failed-solve"); return; }
    if (o.flag) { CHECK(c, S[i].apart || R.flag == o.flag, "codegen:outcome", "solver: code %d '%s', generated program: code %lld '%s'", R.flag, R.info.status, o.flag, o.status); c.label("failed-solve"); return; }
    D gx(q.n + 1), gy(q.m + 1), gp(q.m + 1), gd(q.n + 1); CHECK(c, a->get(i, gx.data(), gy.data(), gp.data(), gd.data()) == 0, "codegen:get", "osqp_get_solution failed in the generated program"); for (int j = 0; j < q.n; j++) CHECK(c, same_float(gx[j], o.x[j]), "codegen:get", "osqp_get_solution disagrees with the stored solution in x[%d]", j); for (int j = 0; j < q.m; j++) CHECK(c, same_float(gy[j], o.y[j]), "codegen:get", "osqp_get_solution disagrees with the stored solution in y[%d]", j);
    if (nonfinite(R) || (R.st() == OSQP_MAX_ITER_REACHED && !(fabs((double)R.info.obj_val) < 1e100))) { c.label("diverging"); return; }
    if (!S[i].apart) {
      CHECK(c, o.flag == R.flag && o.st() == R.st() && !strcmp(o.status, R.info.status) && o.info[1] == (double)R.info.iter, "codegen:outcome", "solver: code %d '%s' after %d iterations, generated program: code %lld '%s' after %g", R.flag, R.info.status, (int)R.info.iter, o.flag, o.status, o.info[1]);
      for (int j = 0; j < q.n; j++) CHECK(c, same_float(o.x[j], R.x[j]), "codegen:x", "x[%d] is %.17g from the solver and %.17g from the generated program ('%s', %d iterations)", j, (double)R.x[j], o.x[j], o.status, (int)R.info.iter);
      for (int j = 0; j < q.m; j++) CHECK(c, same_float(o.y[j], R.y[j]), "codegen:y", "y[%d] is %.17g from the solver and %.17g from the generated program ('%s', %d iterations)", j, (double)R.y[j], o.y[j], o.status, (int)R.info.iter);
      const struct { const char* n; int k; double v; } fld[] = {{"obj_val", 3, R.info.obj_val}, {"dual_obj_val", 4, R.info.dual_obj_val}, {"prim_res", 5, R.info.prim_res}, {"dual_res", 6, R.info.dual_res}, {"duality_gap", 7, R.info.duality_gap}, {"rel_kkt_error", 10, R.info.rel_kkt_error}, {"primdual_int", 11, R.info.primdual_int}};
      for (auto& z : fld) CHECK(c, same_float(o.info[z.k], z.v), "codegen:info", "%s is %.17g from the solver and %.17g from the generated program ('%s', %d iterations)", z.n, z.v, o.info[z.k], o.status, (int)R.info.iter);
      if (mode == 2) { CHECK(c, o.info[8] == (double)(R.info.rho_updates - S[i].base), "codegen:info", "rho_updates grew by %lld in the solver and is %g in the generated program", (long long)R.info.rho_updates - S[i].base, o.info[8]); CHECK(c, same_float(o.info[9], R.info.rho_estimate), "codegen:info", "rho_estimate is %.17g from the solver and %.17g from the generated program", (double)R.info.rho_estimate, o.info[9]); }
      CHECK(c, same_float(o.info[12], q.s->settings->rho), "codegen:info", "rho is %.17g in the solver and %.17g in the generated program", (double)q.s->settings->rho, o.info[12]);
    } else { // the two no longer take the same steps (mode 1 keeps its step sizes): what the generated program claims is judged by itself
      Result G = R; G.flag = (int)o.flag; G.info.status_val = (OSQPInt)o.st(); strncpy(G.info.status, o.status, 31); G.info.iter = (OSQPInt)o.info[1]; G.info.status_polish = 0; G.info.obj_val = (OSQPFloat)o.info[3]; G.info.dual_obj_val = (OSQPFloat)o.info[4]; G.info.prim_res = (OSQPFloat)o.info[5]; G.info.dual_res = (OSQPFloat)o.info[6]; G.info.duality_gap = (OSQPFloat)o.info[7]; G.info.rel_kkt_error = (OSQPFloat)o.info[10];
      for (int j = 0; j < q.n; j++) G.x[j] = (OSQPFloat)o.x[j]; for (int j = 0; j < q.m; j++) G.y[j] = (OSQPFloat)o.y[j]; if (nonfinite(G) && st_hassol(G.st())) { c.label("diverging"); return; } if (st_solved(G.st())) judge(c, cur, *q.s->settings, G); c.label("judged-alone"); }
    c.label(std::string("status:") + st_name(o.st())); }
  c.label(mode == 1 ? "mode-1" : "mode-2"); if (solves >= 2 && big) c.nontrivial();
}
// what is written depends on the solver alone: not on what fresh memory held, and not on an earlier export
PROPERTY(C28, deterministic, 40, "two exports of the same solver history, with different contents of fresh memory, were compared") {
  if (env("VH_CG_SRC").empty()) c.discard();
  OSQPCodegenDefines defs = gen_defs(s, s.range(1, 2), s.range(0, 1)); Scratch dir; std::string pre = gen_prefix(s); std::vector<uint8_t> tail; std::string t[3]; size_t at = s.pos;
  auto strip = [](const std::string& x) { return no_comments(x); };
  (void)tail; (void)at; uint64_t seed = s.draw(1ull << 30);
  for (int r = 0; r < 2; r++) { Src q; q.random = true; q.st = seed * 2654435761u + 12345; vmem_set_fill(r ? 0xC1 : 0x3F); Ctx cc; Past P; try { P = past(q, r ? cc : c, true); } catch (Discard&) { vmem_set_fill(-1); c.discard(); } if (!P.ok) { vmem_set_fill(-1); c.discard(); }
    if (!r) log_defs(c, defs, pre); if (P.q->s->info->status_val == OSQP_NON_CVX) { vmem_set_fill(-1); c.discard(); } int f = (int)osqp_codegen(P.q->s, "", pre.c_str(), &defs); vmem_set_fill(-1); CHECK(c, f == 0, "codegen:refused", "osqp_codegen returned %d", f); t[r] = strip(slurp(pre + "workspace.c")); if (r) { f = (int)osqp_codegen(P.q->s, "", pre.c_str(), &defs); t[2] = strip(slurp(pre + "workspace.c")); CHECK(c, f == 0 && t[2] == t[1], "codegen:not-repeatable", "exporting the same solver twice gave different files"); } }
  if (t[0] != t[1]) { size_t i = 0; while (i < t[0].size() && i < t[1].size() && t[0][i] == t[1][i]) i++; size_t b = t[0].rfind(" = {", i); size_t e = b == std::string::npos ? i : t[0].rfind('\n', b); c.fail("codegen:undetermined", "the export depends on what fresh memory held, in%s: '%s' or '%s'", e == std::string::npos ? "" : t[0].substr(e + 1, b - e).c_str(), t[0].substr(t[0].rfind('\n', i) + 1, 40).c_str(), t[1].substr(t[1].rfind('\n', i) + 1, 40).c_str()); }
  for (auto* w : {"nan", "inf,", "inf\n"}) CHECK(c, t[0].find(w) == std::string::npos, "codegen:not-a-number", "the export contains '%s', which is not a number in C", w);
  c.nontrivial();
}
// arguments are judged before anything is written; where nothing can be written the call says so
PROPERTY(C28, refusal, 30, "an invalid request was made") {
  Scratch dir; GenOpt o; o.well = true; o.pd = true; Prob p = gen_any(s, o); OSQPSettings st = defaults(); log_prob(c, p); Osqp q; if (q.setup(p, st)) c.discard(); if (s.chance(1, 2)) q.run();
  OSQPCodegenDefines f = gen_defs(s, s.range(1, 2), s.range(0, 1)); static const OSQPInt bad[] = {-1, 2, 3, 7, -100, 1000000}; int w = s.range(0, 9), r, want; OSQPInt b = bad[s.draw(6)]; OSQPInt* fs[] = {&f.embedded_mode, &f.float_type, &f.printing_enable, &f.profiling_enable, &f.interrupt_enable, &f.derivatives_enable};
  if (w < 6) { if (w == 0 && b == 2) b = 0; *fs[w] = b; c.log("field %d = %d", w, (int)b); r = (int)osqp_codegen(q.s, "", "p_", &f); want = OSQP_CODEGEN_DEFINES_ERROR; }
  else if (w == 6) { r = (int)osqp_codegen(q.s, "", "p_", nullptr); want = OSQP_CODEGEN_DEFINES_ERROR; }
  else if (w == 7) { r = (int)osqp_codegen(nullptr, "", "p_", &f); want = OSQP_WORKSPACE_NOT_INIT_ERROR; }
  else if (w == 8) { r = (int)osqp_codegen(q.s, "no/such/directory/", "p_", &f); want = OSQP_FOPEN_ERROR; }
  else { Prob b2 = p; if (!b2.P.x.size()) c.discard(); for (auto& v : b2.P.x) v = -v - 1; Osqp z; if (z.setup(b2, st) != OSQP_NONCVX_ERROR || !z.s) c.discard(); r = (int)osqp_codegen(z.s, "", "p_", &f); want = OSQP_NONCVX_ERROR; }
  CHECK(c, r == want, "codegen:refusal-code", "request %d returned %d, expected %d", w, r, want); CHECK(c, listing(".").empty(), "codegen:refused-but-wrote", "a refused request left %s behind", listing(".")[0].c_str());
  f = gen_defs(s, s.range(1, 2), 0); r = (int)osqp_codegen(q.s, "", "p_", &f); CHECK(c, r == 0, "codegen:after-refusal", "a valid request after a refused one returned %d", r); c.nontrivial();
}
// names and paths of any length are either used in full or refused, never cut or written past a buffer
PROPERTY(C28, lengths, 15, "the prefix or the directory was at least 60 characters long") {
  Scratch dir; GenOpt o; o.well = true; o.pd = true; o.nmax = 2; o.mmax = 2; Prob p = gen_any(s, o); Osqp q; if (q.setup(p, defaults())) c.discard();
  static const int L[] = {1, 60, 80, 88, 90, 91, 99, 100, 110, 150, 200, 230, 240, 243}; int np = L[s.draw(14)], depth = s.range(0, 10), nd = 0; std::string pre = std::string(np - 1, 'k') + "_", out = s.chance(1, 2) ? "" : dir.dir + "/"; for (int i = 0; i < depth; i++) { std::string e(s.range(1, 200), 'd'); out += e + "/"; if (mkdir(out.c_str(), 0755)) { c.discard(); } nd++; }
  OSQPCodegenDefines f = gen_defs(s, s.range(1, 2), 0); c.log("prefix of %d characters, directory of %d", np, (int)out.size()); int r = (int)osqp_codegen(q.s, out.c_str(), pre.c_str(), &f);
  std::vector<std::string> l = listing(out.empty() ? "." : out); if (r) { CHECK(c, np > 80 || out.size() > 800, "codegen:refused-name", "a prefix of %d characters in a directory of %d was refused with %d", np, (int)out.size(), r); c.label("refused"); return; }
  for (auto& x : {pre + "workspace.c", pre + "workspace.h", std::string("emosqp.c"), std::string("osqp_configure.h")}) CHECK(c, std::find(l.begin(), l.end(), x) != l.end(), "codegen:missing-file", "%s was not written", x.c_str());
  if (np + 0 >= 60 || out.size() >= 60) c.nontrivial();
}
// the directory the build prepares, with the emitted files in it, builds with its own makefile, and the example runs
PROPERTY(C28, makefile, 1, "the prepared directory was built with its makefile and the example was run") {
  if (env("VH_CG_SRC").empty()) c.discard();
  Scratch dir; Past P = past(s, c, false); if (!P.ok) c.discard(); OSQPCodegenDefines f = gen_defs(s, s.range(1, 2), s.range(0, 1)); f.profiling_enable = f.interrupt_enable = 0; std::string pre = gen_prefix(s), log; log_defs(c, f, pre); if (run("cp -r " + env("VH_CG_SRC") + "/. .")) c.discard(); if (P.q->s->info->status_val == OSQP_NON_CVX) c.discard();
  int r = (int)osqp_codegen(P.q->s, "", pre.c_str(), &f); CHECK(c, r == 0, "codegen:refused", "osqp_codegen returned %d", r); r = run("make -j4", &log); CHECK(c, r == 0, "codegen:makefile", "the prepared directory does not build: %s", first_error(log).c_str());
  r = run("./emosqp", &log); CHECK(c, r == 0 && log.find("no error") != std::string::npos, "codegen:example", "the generated example ended with %d: %s", r, log.substr(0, 200).c_str()); c.nontrivial();
}
// a program generated with clock and interrupts honours both
PROPERTY(C28, limits, 10, "a generated program with the feature met its limit or its interrupt") {
  if (env("VH_CG_SRC").empty()) c.discard();
  Scratch dir; GenOpt o; o.well = true; o.pd = true; Prob p = gen_kkt(s, o); OSQPSettings st = defaults(); st.max_iter = 500; st.eps_abs = st.eps_rel = (OSQPFloat)1e-12; st.check_termination = s.range(1, 30); st.time_limit = (OSQPFloat)1; log_prob(c, p); Osqp q; if (q.setup(p, st)) c.discard();
  OSQPCodegenDefines f = gen_defs(s, s.range(1, 2), MYFLOAT); f.printing_enable = 0; bool pro = f.profiling_enable = s.chance(1, 2), itr = f.interrupt_enable = s.chance(1, 2); if (!pro && !itr) itr = f.interrupt_enable = 1; log_defs(c, f, "p_"); int r = (int)osqp_codegen(q.s, "", "p_", &f); CHECK(c, r == 0, "codegen:refused", "osqp_codegen returned %d", r);
  Prog g; bool ok = g.load(dir.dir, "", {"p_"}); CHECK(c, ok, "codegen:does-not-compile", "the generated code does not compile: %s", g.err.c_str()); const cg_api* a = g.a;
  for (int k = s.range(1, 3); k > 0; k--) { bool t = pro && (!itr || s.chance(1, 2)); int at = s.range(1, 40); a->toc(0, t ? 0 : 1e-9); a->interrupt(0); if (t) a->toc(0, at == 1 ? 2.0 : 1.5 / at); else a->interrupt(at); Out x = gsolve(a, 0, p.n, p.m); c.log("%s %d: '%s' after %g", t ? "clock" : "interrupt", at, x.status, x.info[1]);
    if (x.st() != OSQP_TIME_LIMIT_REACHED && x.st() != OSQP_SIGINT) { c.label("ended-first"); CHECK(c, x.st() != OSQP_MAX_ITER_REACHED && x.info[1] <= at + 1, t ? "codegen:time-limit" : "codegen:interrupt", "stopped from outside at reading %d, but ended '%s' after %g iterations", at, x.status, x.info[1]); continue; }
    if (t) CHECK(c, x.st() == OSQP_TIME_LIMIT_REACHED && x.info[1] <= at + 1, "codegen:time-limit", "time ran out within %d readings of the clock, status '%s' after %g iterations", at, x.status, x.info[1]); else CHECK(c, x.st() == OSQP_SIGINT && x.flag != 0, "codegen:interrupt", "interrupted in iteration %d, status '%s', code %lld", at, x.status, x.flag);
    if (itr) CHECK(c, a->listening() == 0, "codegen:listener", "interrupt listener started and ended %ld times apart", a->listening()); c.nontrivial(); }
}
// exported in the other precision: what the program claims holds for the problem, up to single precision
PROPERTY(C28, precision, 10, "a program in the other precision solved its problem") {
  if (env("VH_CG_SRC").empty()) c.discard();
  Scratch dir; GenOpt o; o.well = true; o.pd = true; o.scaleRows = false; Prob p = gen_kkt(s, o); OSQPSettings st = defaults(); st.max_iter = 4000; st.eps_abs = st.eps_rel = (OSQPFloat)1e-3; st.scaled_termination = 0; st.check_dualgap = 1; log_prob(c, p); Osqp q; if (q.setup(p, st)) c.discard(); if (s.chance(1, 2)) q.run();
  OSQPCodegenDefines f = gen_defs(s, s.range(1, 2), !MYFLOAT); f.interrupt_enable = 0; log_defs(c, f, "p_"); int r = (int)osqp_codegen(q.s, "", "p_", &f); CHECK(c, r == 0, "codegen:refused", "osqp_codegen returned %d", r); Prog g; bool ok = g.load(dir.dir, "", {"p_"}); CHECK(c, ok, "codegen:does-not-compile", "the generated code does not compile: %s", g.err.c_str()); const cg_api* a = g.a; a->toc(0, 1e-9);
  CHECK(c, a->float_bytes == (MYFLOAT ? 8 : 4), "codegen:configuration", "float_type %d was compiled with %d byte numbers", (int)f.float_type, a->float_bytes);
  int k = s.range(1, 3); for (int i = 0; i < k; i++) { if (i) { Op op = gen_vec(s, p, true); log_op(c, op); if (gapply(a, 0, op)) { c.label("refused"); return; } model_op(p, op); } Out x = gsolve(a, 0, p.n, p.m); c.log("'%s' after %g", x.status, x.info[1]); c.label(std::string("other:") + x.status); if (!st_solved(x.st())) continue; V X, Y; for (auto v : x.x) X.push_back((OSQPFloat)v); for (auto v : x.y) Y.push_back((OSQPFloat)v);
    Resid R = residuals(p, X, Y); ld fa = x.st() == OSQP_SOLVED_INACCURATE ? 10 : 1, e = fa * 1e-3L, rnd = 1e-3L * (1 + R.aAx + R.aAty + R.aPx + R.nq) * fa; CHECK(c, R.pdist <= e + e * R.nAx * 1.1L + rnd && R.dres <= e + e * std::max(R.nq, std::max(R.nAty, R.nPx)) * 1.1L + rnd, "codegen:precision", "'%s' with residuals %Lg and %Lg", x.status, R.pdist, R.dres); c.nontrivial(); }
}
// generated with derivatives
PROPERTY(C28, derivatives, 1, "code was generated with derivatives enabled") {
  if (env("VH_CG_SRC").empty()) c.discard();
  Scratch dir; GenOpt o; o.well = true; o.pd = true; Prob p = gen_kkt(s, o); Osqp q; if (q.setup(p, defaults())) c.discard(); OSQPCodegenDefines f; osqp_set_default_codegen_defines(&f); f.embedded_mode = s.range(1, 2); f.float_type = MYFLOAT; f.derivatives_enable = 1; int r = (int)osqp_codegen(q.s, "", "p_", &f); if (r) { c.label("derivatives-refused"); return; } Prog g; bool ok = g.load(dir.dir, "", {"p_"}); CHECK(c, ok, "codegen:derivatives-do-not-compile", "code generated with derivatives_enable does not compile: %s", g.err.c_str()); c.nontrivial();
}

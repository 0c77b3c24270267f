// C27: printing is faithful and inert.
#include "hist.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
namespace {
struct Capture {   // everything written to standard output, by any means
  int fd = -1, old = -1; Capture() { fflush(stdout); fd = memfd_create("out", 0); old = dup(1); dup2(fd, 1); }
  std::string done() { if (old < 0) return ""; fflush(stdout); dup2(old, 1); close(old); old = -1; std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)k); close(fd); return r; }
  ~Capture() { done(); } };
struct Row { bool plsh = false, star = false; int it = 0; double obj, pr, du, gap, kkt, rho; };
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; } return r; }
bool parse_row(const std::string& l, Row& r) { std::string t = l; char sep; int n = 0; r.star = t.find('*') != std::string::npos; for (auto& ch : t) if (ch == '*') ch = ' '; if (sscanf(t.c_str(), " plsh %lf %lf %lf %lf %lf%n", &r.obj, &r.pr, &r.du, &r.gap, &r.kkt, &n) == 5) { r.plsh = true; return true; } (void)sep; return sscanf(t.c_str(), " %d %lf %lf %lf %lf %lf %lf", &r.it, &r.obj, &r.pr, &r.du, &r.gap, &r.kkt, &r.rho) == 7; }
std::string value_of(const std::string& t, const char* label) { size_t p = t.rfind(label); if (p == std::string::npos) return "\x01"; p += strlen(label); size_t e = t.find('\n', p); std::string v = t.substr(p, e - p); size_t a = v.find_first_not_of(' '); size_t b = v.find_last_not_of(' '); return a == std::string::npos ? "" : v.substr(a, b - a + 1); }
bool shows(double printed, double v, double rel, double abs) { if (std::isnan(v)) return std::isnan(printed); if (std::isinf(v)) return printed == v; return fabs(printed - v) <= rel * fabs(v) + abs; }
bool has(const std::string& t, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool has(const std::string& t, const char* fmt, ...) { char b[256]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return t.find(b) != std::string::npos; }
void check_header(Ctx& c, const std::string& o, const Prob& p, const OSQPSettings& t) {
  CHECK(c, has(o, "variables n = %d", p.n) && has(o, "constraints m = %d", p.m), "print:header", "problem size not printed:\n%s", o.c_str()); CHECK(c, has(o, "nnz(P) + nnz(A) = ") && atoi(value_of(o, "nnz(P) + nnz(A) =").c_str()) >= p.A.nnz(), "print:header", "number of nonzeros not printed:\n%s", o.c_str());
  CHECK(c, has(o, "eps_abs = %.1e", (double)t.eps_abs) && has(o, "eps_rel = %.1e", (double)t.eps_rel) && has(o, "eps_prim_inf = %.1e", (double)t.eps_prim_inf) && has(o, "eps_dual_inf = %.1e", (double)t.eps_dual_inf), "print:header", "tolerances not printed:\n%s", o.c_str());
  CHECK(c, has(o, "rho = %.2e", (double)t.rho) && has(o, "sigma = %.2e", (double)t.sigma) && has(o, "alpha = %.2f", (double)t.alpha) && has(o, "max_iter = %d", (int)t.max_iter), "print:header", "algorithm settings not printed:\n%s", o.c_str());
  CHECK(c, has(o, "check_termination: on (interval %d", (int)t.check_termination) == (t.check_termination > 0) && has(o, "scaling: on (%d iter", (int)t.scaling) == (t.scaling > 0) && has(o, "scaled_termination: on") == (t.scaled_termination != 0) && has(o, "warm starting: on") == (t.warm_starting != 0) && has(o, "polishing: on") == (t.polishing != 0) && (!t.check_termination || has(o, "duality gap: on") == (t.check_dualgap != 0)), "print:header", "switches not printed as set:\n%s", o.c_str());
}
void check_solve(Ctx& c, const std::string& o, const Result& r, const OSQPSettings& t, double rho, int adapted) {
  const OSQPInfo& f = r.info; std::vector<Row> rows; for (auto& l : lines(o)) { Row w; if (parse_row(l, w)) rows.push_back(w); } const double e3 = 6e-3, e5 = 6e-5; bool pol = false;
  CHECK(c, value_of(o, "status:") == f.status, "print:status", "printed status '%s', reported '%s'", value_of(o, "status:").c_str(), f.status);
  CHECK(c, atoi(value_of(o, "number of iterations:").c_str()) == (int)f.iter, "print:iterations", "printed %s iterations, reported %d", value_of(o, "number of iterations:").c_str(), (int)f.iter);
  std::string ps = value_of(o, "solution polishing:"), want = !t.polishing || r.st() != OSQP_SOLVED ? "\x01" : f.status_polish == 1 ? "successful" : f.status_polish < 0 ? "unsuccessful" : f.status_polish == 2 ? "not needed" : "\x01"; CHECK(c, ps == want, "print:polish", "printed polishing outcome '%s', reported status %d", ps.c_str(), (int)f.status_polish);
  std::string ob = value_of(o, "optimal objective:"), db = value_of(o, "dual objective:"), gp = value_of(o, "duality gap:"); bool sol = st_solved(r.st());
  CHECK(c, (ob != "\x01") == sol && (db != "\x01") == sol && (gp != "\x01") == sol, "print:footer-objective", "status '%s', objective lines '%s' '%s' '%s'", f.status, ob.c_str(), db.c_str(), gp.c_str());
  if (sol) { CHECK(c, shows(atof(ob.c_str()), f.obj_val, 1e-12, 6e-5), "print:objective", "printed objective %s, reported %.12g", ob.c_str(), (double)f.obj_val); CHECK(c, shows(atof(db.c_str()), f.dual_obj_val, 1e-12, 6e-5), "print:dual-objective", "printed dual objective %s, reported %.12g", db.c_str(), (double)f.dual_obj_val); CHECK(c, shows(atof(gp.c_str()), f.duality_gap, e5, 1e-300), "print:gap", "printed gap %s, reported %.12g", gp.c_str(), (double)f.duality_gap); }
  CHECK(c, shows(atof(value_of(o, "optimal rho estimate:").c_str()), f.rho_estimate, e3, 0), "print:rho-estimate", "printed estimate %s, reported %g", value_of(o, "optimal rho estimate:").c_str(), (double)f.rho_estimate);
  CHECK(c, shows(atof(value_of(o, "run time:").c_str()), f.run_time, e3, 0), "print:run-time", "printed run time %s, reported %g", value_of(o, "run time:").c_str(), (double)f.run_time);
  CHECK(c, !rows.empty(), "print:rows", "no iteration was printed:\n%s", o.c_str()); if (rows.back().plsh) { pol = true; CHECK(c, f.status_polish == 1, "print:polish-row", "a polishing row was printed, polishing status %d", (int)f.status_polish); const Row& w = rows.back(); CHECK(c, shows(w.obj, f.obj_val, e5, 1e-300) && shows(w.pr, f.prim_res, e3, 1e-300) && shows(w.du, f.dual_res, e3, 1e-300) && shows(w.gap, f.duality_gap, e3, 1e-300), "print:polish-values", "polishing row: objective %g residuals %g %g gap %g; reported %g %g %g %g", w.obj, w.pr, w.du, w.gap, (double)f.obj_val, (double)f.prim_res, (double)f.dual_res, (double)f.duality_gap); rows.pop_back(); }
  else CHECK(c, f.status_polish != 1, "print:polish-row", "polishing succeeded but its row was not printed");
  int stars = 0, last = 0; CHECK(c, !rows.empty(), "print:rows", "no iteration was printed"); for (auto& w : rows) { CHECK(c, !w.plsh && w.it >= last && w.it <= (int)f.iter, "print:order", "row for iteration %d after %d, total %d", w.it, last, (int)f.iter); if (w.star && (&w == &rows[0] || w.it != last)) stars++; last = w.it; }
  CHECK(c, rows.front().it == 1, "print:first", "the first row printed is that of iteration %d", rows.front().it); for (int k = 200; k <= (int)f.iter; k += 200) { bool got = false; for (auto& w : rows) if (w.it == k) got = true; CHECK(c, got, "print:interval", "iteration %d was not printed", k); }
  const Row& w = rows.back(); CHECK(c, w.it == (int)f.iter, "print:last", "the last row printed is that of iteration %d of %d", w.it, (int)f.iter);
  if (!pol) { CHECK(c, shows(w.pr, f.prim_res, e3, 1e-300) && shows(w.du, f.dual_res, e3, 1e-300), "print:residuals", "last row: residuals %g %g; reported %g %g", w.pr, w.du, (double)f.prim_res, (double)f.dual_res); if (sol) CHECK(c, shows(w.obj, f.obj_val, e5, 1e-300) && shows(w.gap, f.duality_gap, e3, 1e-300), "print:row-objective", "last row: objective %g gap %g; reported %g %g", w.obj, w.gap, (double)f.obj_val, (double)f.duality_gap); }
  CHECK(c, shows(w.rho, rho, e3, 0), "print:rho", "last row: step size %g, in force %g", w.rho, rho);
  CHECK(c, stars == adapted, "print:adapted", "%d rows marked as step-size changes, %d changes happened", stars, adapted); if (adapted) c.label("marked"); if (pol) c.label("polish-row"); if (rows.size() > 2) c.label("many-rows");
}
}
PROPERTY(C27, history, 4, "a verbose solve took part") {
  GenOpt o; if (s.chance(1, 2)) o.well = true; Prob p = gen_any(s, o); SetOpt so; so.timed = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME && !st.adaptive_rho_interval) st.adaptive_rho_interval = 7; log_prob(c, p); log_settings(c, st); bool direct = st.linsys_solver == OSQP_DIRECT_SOLVER;
  Osqp a, b; OSQPSettings vb = st; vb.verbose = s.chance(3, 4); Capture c1; int fa = a.setup(p, st); std::string oa = c1.done(); Capture c2; int fb = b.setup(p, vb); std::string ob = c2.done(); if (fa || fb) { CHECK(c, fa == fb, "inert:setup", "setup returns %d silently, %d verbosely", fa, fb); c.discard(); }
  CHECK(c, oa.empty(), "silent:setup", "a silent setup printed '%s'", oa.c_str()); if (vb.verbose) { check_header(c, ob, p, *b.s->settings); } else CHECK(c, ob.empty(), "silent:setup", "a silent setup printed '%s'", ob.c_str());
  int k = tail_len(s, 1, 5); OpOpt oo; oo.so = so; oo.wSolve = 3; 
  for (int i = 0; i < k; i++) {
    Op op; if (i == 0 || i == k - 1) op.k = O_SOLVE; else { op = gen_op(s, p, st, oo); if (op.k == O_SET && s.chance(1, 2)) { op.st = *a.s->settings; if (s.chance(1, 2)) op.st.polishing = s.range(0, 1); if (s.chance(1, 2)) op.st.max_iter = s.range(1, 900); } } Op ob2 = op; op.st.verbose = 0; if (op.k == O_SET) { ob2.st.verbose = s.chance(2, 3); c.log("verbose %d", (int)ob2.st.verbose); } log_op(c, op);
    int u0 = (int)b.s->info->rho_updates; Capture ca; int ra = op.k == O_SOLVE ? a.solve() : apply_op(a, op); std::string ta = ca.done(); Capture cb; int rb = op.k == O_SOLVE ? b.solve() : apply_op(b, ob2); std::string tb = cb.done();
    if (direct || op.k != O_SOLVE) CHECK(c, ra == rb, "inert:flag", "%s returns %d silently, %d verbosely", op_name(op.k), ra, rb);
    if (ra == 0) CHECK(c, ta.empty(), "silent:output", "a silent solver printed '%s' in %s", ta.c_str(), op_name(op.k)); if (rb == 0 && (op.k != O_SOLVE || !b.s->settings->verbose)) CHECK(c, tb.empty(), "silent:output", "%s printed '%s'", op_name(op.k), tb.c_str());
    if (ra || rb) { c.label("error"); if (op.k == O_SOLVE || ra != rb) return; continue; } model_op(p, op);
    if (op.k == O_SOLVE) { Result x = a.get(), y = b.get(); c.log("   %s iter %d polish %d", st_name(y.st()), (int)y.info.iter, (int)y.info.status_polish); c.label(std::string("status:") + st_name(y.st()));
      if (direct) { OSQPSettings e = *b.s->settings; e.verbose = 0; std::string d = diff_results(x, y, 0, 0); if (d.empty()) d = settings_diff(*a.s->settings, e, true); CHECK(c, d.empty(), "inert:result", "silent vs verbose: %s", d.c_str()); } else { if (st_solved(y.st())) check_solved(c, p, b, y); check_info(c, p, b, y); }
      if (b.s->settings->verbose) { if (!c.verbose) {} else c.log("%s", tb.c_str()); int ad = (int)y.info.rho_updates - u0; check_solve(c, tb, y, *b.s->settings, b.s->settings->rho, ad); c.nontrivial(); } }
  }
}
// under a time limit, with a running clock
PROPERTY(C27, timed, 1, "the time limit struck in a verbose solve") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.verbose = 1; if (s.chance(1, 2)) st.check_termination = 0; st.max_iter = 1500; double step = 0.001 * s.range(1, 50); st.time_limit = (OSQPFloat)(step * (0.5 + s.range(1, 400))); vclk_set_step(step); log_prob(c, p); log_settings(c, st); Osqp q; Capture c1; int f = q.setup(p, st); std::string h = c1.done(); if (f) c.discard(); check_header(c, h, p, *q.s->settings); CHECK(c, has(h, "time_limit: %.2e", (double)st.time_limit), "print:header", "time limit not printed:\n%s", h.c_str());
  int n = s.range(1, 2); for (int k = 0; k < n; k++) { int u0 = (int)q.s->info->rho_updates; Capture cb; int r = q.solve(); std::string t = cb.done(); if (r) return; Result y = q.get(); bool tl = y.st() == OSQP_TIME_LIMIT_REACHED; if (c.verbose) c.log("%s", t.c_str()); check_solve(c, t, y, *q.s->settings, q.s->settings->rho, (int)y.info.rho_updates - u0); CHECK(c, !tl || has(t, "run time limit reached"), "print:time-limit", "the time limit struck silently"); if (tl) c.nontrivial(); }
}

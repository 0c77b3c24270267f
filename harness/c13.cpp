// C13: the caller's data is neither modified nor kept.
#include "hist.hpp"
#include <sys/mman.h>
// inputs live in pages that are read-only during the call and inaccessible afterwards
struct Arena {
  char* b; size_t cap, off = 0; std::vector<std::pair<size_t, std::vector<char>>> cp;
  Arena(size_t n) { cap = (n + 8192) & ~(size_t)4095; b = (char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  ~Arena() { munmap(b, cap); }
  template <class T> T* put(const T* v, size_t n) { off = (off + 15) & ~(size_t)15; size_t by = n * sizeof(T); if (off + by > cap) abort(); T* r = (T*)(b + off); if (by) memcpy((void*)r, (const void*)v, by); off += by; return r; }
  void seal() { mprotect(b, cap, PROT_READ); }
  void kill() { mprotect(b, cap, PROT_NONE); }
};
static size_t psize(const Prob& p) { return 16 * 16 + (p.P.p.size() + p.A.p.size() + p.P.i.size() + p.A.i.size()) * sizeof(OSQPInt) + (p.P.x.size() + p.A.x.size() + p.q.size() + 2 * p.l.size()) * sizeof(OSQPFloat) + 2 * sizeof(OSQPCscMatrix) + sizeof(OSQPSettings); }
static int setup_in(Arena& a, Osqp& q, const Prob& p, const OSQPSettings& st) {
  auto mat = [&](const Csc& M) { OSQPCscMatrix v = M.view(); v.p = a.put(M.p.data(), M.p.size()); v.i = a.put(M.i.data(), M.i.size()); v.x = a.put(M.x.data(), M.x.size()); return a.put(&v, 1); };
  OSQPCscMatrix *P = mat(p.P), *A = mat(p.A); const OSQPFloat *qq = a.put(p.q.data(), p.n), *l = a.put(p.l.data(), p.m), *u = a.put(p.u.data(), p.m); const OSQPSettings* s = a.put(&st, 1);
  a.seal(); q.cleanup(); q.n = p.n; q.m = p.m; return q.setup_flag = (int)osqp_setup(&q.s, P, qq, A, l, u, p.m, p.n, s);
}
static int apply_in(Osqp& q, const Op& o) {
  Arena a((o.q.size() + o.l.size() + o.u.size() + o.Px.size() + o.Ax.size() + o.x.size() + o.y.size()) * sizeof(OSQPFloat) + (o.Pi.size() + o.Ai.size()) * sizeof(OSQPInt) + sizeof(OSQPSettings) + 256); int r;
  auto f = [&](const V& v, bool h) -> OSQPFloat* { return h ? a.put(v.data(), v.size()) : nullptr; }; auto g = [&](const VI& v, bool h) -> OSQPInt* { return h ? a.put(v.data(), v.size()) : nullptr; };
  switch (o.k) {
    case O_VEC: { auto x = f(o.q, o.hq), y = f(o.l, o.hl), z = f(o.u, o.hu); a.seal(); r = (int)osqp_update_data_vec(q.s, x, y, z); break; }
    case O_MAT: { auto x = f(o.Px, o.hP); auto y = g(o.Pi, o.hP && !o.pall); auto z = f(o.Ax, o.hA); auto w = g(o.Ai, o.hA && !o.aall); a.seal(); r = (int)osqp_update_data_mat(q.s, x, y, o.hP ? (OSQPInt)o.Px.size() : 0, z, w, o.hA ? (OSQPInt)o.Ax.size() : 0); break; }
    case O_SET: { auto x = a.put(&o.st, 1); a.seal(); r = (int)osqp_update_settings(q.s, x); break; }
    case O_WARM: { auto x = f(o.x, o.hx), y = f(o.y, o.hy); a.seal(); r = (int)osqp_warm_start(q.s, x, y); break; }
    default: r = apply_op(q, o);
  }
  return r;   // the pages are gone now
}
static void twin(Src& s, Ctx& c, bool shared) {
  GenOpt o; Prob p = gen_any(s, o), p0 = p; SetOpt so; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2) st.adaptive_rho_interval = 10; st.max_iter = std::min((int)st.max_iter, 500); if (s.chance(1, 6)) st.allocate_solution = 0; log_prob(c, p); log_settings(c, st);
  Osqp a, b, d; bool fail = s.chance(1, 10); if (fail) st.alpha = 3;   // a refused setup must not touch its arguments either
  { Arena ar(psize(p) * 2); int f = setup_in(ar, a, p, st); if (!fail && shared) { OSQPCscMatrix P = p.P.view(), A = p.A.view(); (void)P; (void)A; } ar.kill();
    if (f) { if (!fail) c.discard(); return; } b.setup(p, st);
    OpOpt oo; oo.so = so; oo.wSet = 2; oo.wWarm = 2; int k = tail_len(s, 2, 8); bool any = false;
    for (int i = 0; i < k; i++) { Op op = gen_op(s, p, st, oo); log_op(c, op); int fa = apply_in(a, op), fb = apply_op(b, op); CHECK(c, fa == fb, "caller:code", "%s returned %d with private data, %d with kept data", op_name(op.k), fa, fb); if (fa == 0) model_op(p, op); any |= op.k != O_SOLVE && op.k != O_GET && op.k != O_COLD;
      Result x = a.get(), y = b.get(); std::string df = diff_results(x, y, 0, 0); CHECK(c, df.empty(), "caller:differs", "after %s: %s", op_name(op.k), df.c_str()); }
    Result x = a.run(), y = b.run(); std::string df = diff_results(x, y, 0, 0); CHECK(c, df.empty(), "caller:differs", "final solve: %s", df.c_str()); (void)any; c.nontrivial(); }
}
PROPERTY(C13, unmapped, 3, "the solver worked on after its inputs became inaccessible") { twin(s, c, false); }
// two solvers from the same arrays, used alternately, each against one of its own
PROPERTY(C13, shared_arrays, 1, "both solvers sharing the arrays were updated and solved") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings s1 = gen_settings(s, so), s2 = s.chance(1, 2) ? s1 : gen_settings(s, so); for (auto* t : {&s1, &s2}) { t->max_iter = std::min((int)t->max_iter, 500); if (t->adaptive_rho == 2) t->adaptive_rho_interval = 10; } log_prob(c, p); log_settings(c, s1); log_settings(c, s2);
  Arena ar(psize(p) * 2 + 4096); Osqp a, b, a0, b0; a0.setup(p, s1); b0.setup(p, s2);
  { auto mat = [&](const Csc& M) { OSQPCscMatrix v = M.view(); v.p = ar.put(M.p.data(), M.p.size()); v.i = ar.put(M.i.data(), M.i.size()); v.x = ar.put(M.x.data(), M.x.size()); return ar.put(&v, 1); };
    OSQPCscMatrix *P = mat(p.P), *A = mat(p.A); const OSQPFloat *q = ar.put(p.q.data(), p.n), *l = ar.put(p.l.data(), p.m), *u = ar.put(p.u.data(), p.m); ar.seal();
    a.n = b.n = p.n; a.m = b.m = p.m; int f = (int)osqp_setup(&a.s, P, q, A, l, u, p.m, p.n, &s1); if (f) c.discard(); if (s.chance(1, 2)) osqp_solve(a.s); f = (int)osqp_setup(&b.s, P, q, A, l, u, p.m, p.n, &s2); if (f) c.discard(); }
  ar.kill(); Prob pa = p, pb = p; OpOpt oo; oo.so = so; int k = tail_len(s, 2, 6); osqp_cold_start(a.s); osqp_update_rho(a.s, s1.rho);
  for (int i = 0; i < k; i++) { bool first = s.chance(1, 2); Osqp &x = first ? a : b, &y = first ? a0 : b0; Prob& pp = first ? pa : pb; Op op = gen_op(s, pp, first ? s1 : s2, oo); c.log("solver %d", first ? 1 : 2); log_op(c, op); int fa = apply_in(x, op), fb = apply_op(y, op); CHECK(c, fa == fb, "caller:code", "%s returned %d, alone %d", op_name(op.k), fa, fb); if (!fa) model_op(pp, op); }
  for (int w = 0; w < 2; w++) { Osqp &x = w ? b : a, &y = w ? b0 : a0; osqp_cold_start(x.s); osqp_cold_start(y.s); OSQPInt d0 = x.s->info->rho_updates, d1 = y.s->info->rho_updates; osqp_update_rho(x.s, (OSQPFloat)0.2); osqp_update_rho(y.s, (OSQPFloat)0.2); Result u = x.run(), v = y.run(); u.info.rho_updates -= d0; v.info.rho_updates -= d1; std::string df = diff_results(u, v, 0, 0); CHECK(c, df.empty(), "caller:shared", "solver %d of two built from the same arrays differs from one built alone: %s", w + 1, df.c_str()); }
  c.nontrivial();
}

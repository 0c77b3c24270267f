// C33: what a solver does next depends on the values last set, not on the order, grouping or repetition of the calls that set them.
#include "hist.hpp"
static Op vec(const Op& o, bool q, bool l, bool u) { Op r; r.k = O_VEC; r.hq = q && o.hq; r.hl = l && o.hl; r.hu = u && o.hu; if (r.hq) r.q = o.q; if (r.hl) r.l = o.l; if (r.hu) r.u = o.u; return r; }
static Op mats(const Op& o, bool P, bool A) { Op r; r.k = O_MAT; r.hP = P && o.hP; r.hA = A && o.hA; if (r.hP) { r.pall = o.pall; r.Px = o.Px; r.Pi = o.Pi; } if (r.hA) { r.aall = o.aall; r.Ax = o.Ax; r.Ai = o.Ai; } return r; }
static Op warm(const Op& o, bool x, bool y) { Op r; r.k = O_WARM; r.hx = x && o.hx; r.hy = y && o.hy; if (r.hx) r.x = o.x; if (r.hy) r.y = o.y; return r; }
template <class T> static void shuf(Src& s, std::vector<T>& v) { for (size_t a = v.size(); a > 1; a--) std::swap(v[a - 1], v[s.draw(a)]); }
static OSQPSettings settings(Src& s, bool unscaled) { SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = std::min((int)st.max_iter, 400); if (unscaled) st.scaling = 0; if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) st.adaptive_rho = 1; if (st.adaptive_rho && !st.adaptive_rho_interval) st.adaptive_rho_interval = s.range(1, 40); return st; }
// the same beginning for both solvers
static void begin(Src& s, Ctx& c, Prob& p, const OSQPSettings& st, Osqp& a, Osqp& b) {
  OpOpt oo; oo.wGet = 0; oo.moderate = true; int k = tail_len(s, 0, 2); for (int i = 0; i < k; i++) { Op op = gen_op(s, p, st, oo); if (op.k == O_SET && op.st.adaptive_rho == 2) op.st.adaptive_rho = 1; log_op(c, op); int f = apply_op(a, op), g = apply_op(b, op); if (f != g) c.fail("order:beginning", "the same call returned %d and %d", f, g); if (!f) model_op(p, op); else if (op.k == O_MAT) c.discard(); }
  c.log("-- common beginning ends");
}
static void run(Ctx& c, const char* tag, Osqp& q, const std::vector<Op>& ops, bool& ok) { c.log("solver %s:", tag); for (auto& o : ops) { log_op(c, o); if (apply_op(q, o)) { ok = false; return; } } }
static void same(Ctx& c, const char* key, Osqp& a, Osqp& b) {
  std::string d = settings_diff(*a.s->settings, *b.s->settings, true); CHECK(c, d.empty(), std::string(key) + "-settings", "settings differ: %s", d.c_str());
  for (int i = 0; i < 2; i++) { OSQPInt ua = a.s->info->rho_updates, ub = b.s->info->rho_updates; Result x = a.run(), y = b.run(); x.info.rho_updates -= ua; y.info.rho_updates -= ub; c.log("-> %s iter %d / %s iter %d", st_name(x.st()), (int)x.info.iter, st_name(y.st()), (int)y.info.iter); std::string e = diff_results(x, y, 0, 0); CHECK(c, e.empty(), key, "solve %d afterwards: %s", i + 1, e.c_str()); if (!i) c.label(st_name(x.st())); }
}
static bool nothing(const Op& o) { return (o.k == O_VEC && !o.hq && !o.hl && !o.hu) || (o.k == O_MAT && !o.hP && !o.hA) || (o.k == O_WARM && !o.hx && !o.hy); }
PROPERTY(C33, order, 3, "at least three calls were made in two different orders and accepted in both") {
  GenOpt o; Prob p = gen_any(s, o); bool un = s.chance(1, 3); OSQPSettings st = settings(s, un); log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st); begin(s, c, p, st, a, b);
  std::vector<Op> ops; Op v = gen_vec(s, p, true); ops.push_back(vec(v, true, false, false)); ops.push_back(vec(v, false, true, true));
  if (s.chance(2, 3)) { Op r; r.k = O_RHO; static const double rh[] = {0.1, 1, 0.01, 10, 100, 1e-7}; r.rho = rh[s.draw(6)]; ops.push_back(r); }
  bool start = s.chance(3, 4); Op z = gen_warm(s, p); if (s.chance(2, 3)) { Op t; t.k = O_SET; t.st = settings(s, un); t.st.linsys_solver = a.s->settings->linsys_solver; if (start) t.st.warm_starting = 1; ops.push_back(t); }
  if (start) { if (s.chance(1, 5)) { Op w; w.k = O_COLD; ops.push_back(w); } else { ops.push_back(warm(z, true, false)); ops.push_back(warm(z, false, true)); } }
  if (un && !a.s->settings->scaling) { Op m = gen_mat(s, p, true); if (m.k == O_MAT) { ops.push_back(mats(m, true, false)); if (!start || s.chance(1, 8)) { bool wx = false; for (auto& q : ops) wx |= q.k == O_WARM && q.hx; if (!wx) ops.push_back(mats(m, false, true)); } } }
  std::vector<Op> A, B; for (auto& q : ops) if (!nothing(q)) A.push_back(q); B = A; shuf(s, B); bool ok = true; run(c, "a", a, A, ok); if (ok) run(c, "b", b, B, ok); if (!ok) { c.label("refused"); return; }
  same(c, "order:result", a, b); if (A.size() > 2) c.nontrivial();
}
PROPERTY(C33, grouping, 3, "one call was made whole for one solver, in parts for the other") {
  GenOpt o; Prob p = gen_any(s, o); int w = s.range(0, 3); OSQPSettings st = settings(s, w >= 2); log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st); begin(s, c, p, st, a, b); std::vector<Op> A, B;
  if (w == 0) { Op v = gen_vec(s, p, true); A.push_back(v); B.push_back(vec(v, true, false, false)); if (s.chance(1, 2)) B.push_back(vec(v, false, true, true)); else { B.push_back(vec(v, false, true, false)); B.push_back(vec(v, false, false, true)); } shuf(s, B); }
  else if (w == 1) { Op z = gen_warm(s, p); A.push_back(z); B.push_back(warm(z, true, false)); B.push_back(warm(z, false, true)); shuf(s, B); }
  else { Op m = gen_mat(s, p, true); if (m.k != O_MAT) c.discard(); A.push_back(m);
    auto part = [&](bool isP) { bool all = isP ? m.pall : m.aall; const V& x = isP ? m.Px : m.Ax; VI id = isP ? m.Pi : m.Ai; if (all) { id.clear(); for (size_t k = 0; k < x.size(); k++) id.push_back((OSQPInt)k); } int parts = s.range(1, 3); std::vector<Op> r(parts); for (auto& q : r) { q.k = O_MAT; (isP ? q.hP : q.hA) = true; } for (size_t k = 0; k < x.size(); k++) { Op& q = r[s.draw(parts)]; (isP ? q.Px : q.Ax).push_back(x[k]); (isP ? q.Pi : q.Ai).push_back(id[k]); } for (auto& q : r) if ((isP ? q.Px : q.Ax).size()) B.push_back(q); };
    if (w == 3) { if (m.hP) part(true); if (m.hA) part(false); } else { B.push_back(mats(m, true, false)); B.push_back(mats(m, false, true)); } shuf(s, B);
    if (w == 2 && s.chance(1, 2)) { Op f; f.k = O_MAT; Prob n = p; model_op(n, m); f.hP = m.hP; f.hA = m.hA; f.pall = f.aall = true; f.Px = n.P.x; f.Ax = n.A.x; A[0] = f; } }
  std::vector<Op> C; for (auto& q : B) if (!nothing(q)) C.push_back(q); bool ok = true; run(c, "a", a, A, ok); if (ok) run(c, "b", b, C, ok); if (!ok) { c.label("refused"); return; }
  c.label(w == 0 ? "vectors" : w == 1 ? "start" : "matrices"); same(c, "group:result", a, b); if (C.size() > 1) c.nontrivial();
}
PROPERTY(C33, repetition, 2, "a call was made again with the same values") {
  GenOpt o; Prob p = gen_any(s, o); bool un = s.chance(1, 2); OSQPSettings st = settings(s, un); log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st); begin(s, c, p, st, a, b); std::vector<Op> A, B; int k = tail_len(s, 1, 3);
  Prob cur = p; for (int i = 0; i < k; i++) { Op op; switch (s.range(0, 6)) { case 0: case 1: op = gen_vec(s, cur, true); break; case 2: op.k = O_SET; op.st = settings(s, un); op.st.linsys_solver = a.s->settings->linsys_solver; break; case 3: { op.k = O_RHO; static const double rh[] = {0.1, 1, 0.01, 10, 100, 1e-7, 1e7}; op.rho = rh[s.draw(7)]; break; } case 4: op = gen_warm(s, cur); break; case 5: op.k = O_COLD; break; default: if (a.s->settings->scaling) op = gen_vec(s, cur, true); else op = gen_mat(s, cur, true); }
    model_op(cur, op); A.push_back(op); B.push_back(op); B.push_back(op); }
  // asking for the solution and passing the data the solver already has change nothing either
  if (s.chance(1, 3)) { Op g; g.k = O_GET; B.push_back(g); } if (!a.s->settings->scaling && s.chance(1, 2)) { Op v; v.k = O_VEC; v.hq = true; v.q = cur.q; v.hl = v.hu = cur.m > 0; v.l = cur.l; v.u = cur.u; B.push_back(v); }
  bool ok = true; run(c, "a", a, A, ok); if (ok) run(c, "b", b, B, ok); if (!ok) { c.label("refused"); return; } same(c, "repeat:result", a, b); c.nontrivial();
}

// A start problem and a sequence of updates that leads from it to a target problem.
#pragma once
#include "hist.hpp"
static inline void path_to(Src& s, const Prob& target, Prob& start, std::vector<Op>& ops, bool moderate) {
  start = target; int k = s.range(1, 4);
  for (int i = 0; i < k; i++) { Op o = s.chance(1, 2) ? gen_vec(s, start, moderate) : gen_mat(s, start, moderate); model_op(start, o); }
  // some random detours, then the final values in random grouping
  Prob cur = start; int det = tail_len(s, 0, 3); for (int i = 0; i < det; i++) { Op o = s.chance(1, 2) ? gen_vec(s, cur, moderate) : gen_mat(s, cur, moderate); model_op(cur, o); ops.push_back(o); if (s.chance(1, 3)) { Op z; z.k = O_SOLVE; ops.push_back(z); } }
  auto vecop = [&](bool q, bool l, bool u) { Op o; o.k = O_VEC; o.hq = q; o.hl = l; o.hu = u; o.q = target.q; o.l = target.l; o.u = target.u; return o; };
  auto matop = [&](bool P, bool A) { Op o; o.k = O_MAT; o.hP = P && target.P.nnz(); o.hA = A && target.A.nnz();
    auto fill = [&](bool have, bool& all, const V& t, const V& cu, V& x, VI& idx) { if (!have) return; all = s.chance(1, 2); if (all) { x = t; return; } for (size_t i = 0; i < t.size(); i++) if (t[i] != cu[i] || s.chance(1, 4)) { x.push_back(t[i]); idx.push_back((OSQPInt)i); } if (x.empty()) { x.push_back(t[0]); idx.push_back(0); } if (s.chance(1, 2)) for (size_t a = x.size(); a > 1; a--) { size_t b = s.draw(a); std::swap(x[a - 1], x[b]); std::swap(idx[a - 1], idx[b]); } };
    fill(o.hP, o.pall, target.P.x, cur.P.x, o.Px, o.Pi); fill(o.hA, o.aall, target.A.x, cur.A.x, o.Ax, o.Ai); return o; };
  std::vector<Op> fin; int g = s.range(0, 3);
  // bounds: one call for both unless each single step keeps l <= u
  bool okL = true, okU = true; for (int i = 0; i < target.m; i++) { if (target.l[i] > cur.u[i]) okL = false; if (cur.l[i] > target.u[i]) okU = false; }
  if (g == 0 || !target.m) fin.push_back(vecop(true, target.m > 0, target.m > 0));
  else if (g == 1) { fin.push_back(vecop(true, false, false)); fin.push_back(vecop(false, true, true)); }
  else if (g == 3 && (okL || okU)) { bool f = s.chance(1, 2); fin.push_back(vecop(f, okL, !okL)); fin.push_back(vecop(!f, !okL, okL)); }
  else { fin.push_back(vecop(true, false, false)); if (okL) { fin.push_back(vecop(false, true, false)); fin.push_back(vecop(false, false, true)); } else if (okU) { fin.push_back(vecop(false, false, true)); fin.push_back(vecop(false, true, false)); } else fin.push_back(vecop(false, true, true)); }
  std::vector<Op> mats; if (s.chance(1, 2)) { mats.push_back(matop(true, true)); } else { mats.push_back(matop(true, false)); mats.push_back(matop(false, true)); if (s.chance(1, 2)) std::swap(mats[0], mats[1]); }
  std::vector<Op> m2; for (auto& o : mats) if (o.hP || o.hA) m2.push_back(o);
  if (s.chance(1, 2)) { for (auto& o : fin) ops.push_back(o); for (auto& o : m2) ops.push_back(o); } else { for (auto& o : m2) ops.push_back(o); for (auto& o : fin) ops.push_back(o); }
  if (ops.size() > 1 && s.chance(1, 3)) { Op z; z.k = O_SOLVE; ops.insert(ops.begin() + s.draw(ops.size()), z); }
}

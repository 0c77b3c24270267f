// C24, conversions: functions of csc_utils.h that only the library itself calls.
#include "hist.hpp"
extern "C" {
#include "glob_opts.h"
#include "csc_utils.h"
}
namespace {
Csc gmat(Src& s, int m, int n, bool tri) { Csc a; a.m = m; a.n = n; a.p.push_back(0); int den = s.range(0, 4); for (int j = 0; j < n; j++) { bool empty = s.chance(1, 6); for (int i = 0; i < m; i++) { if (tri && i > j) break; if (!empty && (den == 4 || s.range(0, 3) < den)) { a.i.push_back(i); a.x.push_back((OSQPFloat)((1 + (double)a.i.size()) * (s.chance(1, 2) ? 0.5 : -0.25))); } } a.p.push_back((OSQPInt)a.i.size()); } return a; }
struct Own { OSQPCscMatrix* M; Own(OSQPCscMatrix* m) : M(m) {} Own(const Own&) = delete; ~Own() { csc_spfree(M); } OSQPCscMatrix* operator->() const { return M; } };
void logm(Ctx& c, const char* nm, const Csc& a) { std::string r = std::string(nm) + " " + std::to_string(a.m) + "x" + std::to_string(a.n) + ":"; for (int j = 0; j < a.n; j++) for (OSQPInt k = a.p[j]; k < a.p[j + 1]; k++) { char b[60]; snprintf(b, sizeof b, " (%d,%d)=%.9g", (int)a.i[k], j, (double)a.x[k]); r += b; if (r.size() > 900) { c.log("%s ...", r.c_str()); return; } } c.log("%s", r.c_str()); }
typedef std::map<std::pair<int, int>, OSQPFloat> Ent;
Ent entries(const Csc& a) { Ent e; for (int j = 0; j < a.n; j++) for (OSQPInt k = a.p[j]; k < a.p[j + 1]; k++) e[{(int)a.i[k], j}] = a.x[k]; return e; }
Ent entries(Ctx& c, const OSQPCscMatrix* M, const char* op) { Ent e; CHECK(c, M->p[0] == 0 && M->p[M->n] <= M->nzmax, "convert:structure", "%s: pointers", op); for (OSQPInt j = 0; j < M->n; j++) { CHECK(c, M->p[j] <= M->p[j + 1], "convert:structure", "%s: column pointers decrease", op); for (OSQPInt k = M->p[j]; k < M->p[j + 1]; k++) { CHECK(c, M->i[k] >= 0 && M->i[k] < M->m, "convert:structure", "%s: row index %d of %d", op, (int)M->i[k], (int)M->m); CHECK(c, !e.count({(int)M->i[k], (int)j}), "convert:duplicate", "%s: (%d,%d) occurs twice", op, (int)M->i[k], (int)j); e[{(int)M->i[k], (int)j}] = M->x[k]; } } return e; }
void same(Ctx& c, const Ent& got, const Ent& want, const char* op) { for (auto& w : want) { auto g = got.find(w.first); CHECK(c, g != got.end(), std::string("convert:") + op, "%s: entry (%d,%d) is missing", op, w.first.first, w.first.second); CHECK(c, g->second == w.second, std::string("convert:") + op, "%s: entry (%d,%d) is %g, should be %g", op, w.first.first, w.first.second, (double)g->second, (double)w.second); } CHECK(c, got.size() == want.size(), std::string("convert:") + op, "%s: %zu entries instead of %zu", op, got.size(), want.size()); }
}
PROPERTY(C24, conversions, 3, "a matrix with at least two entries") {
  int big = s.chance(1, 10) ? 25 : 8, n = s.range(0, big), m = s.range(0, big), which = s.range(0, 6); Csc a = gmat(s, m, n, false), copy = a; OSQPCscMatrix v = a.view(); logm(c, "A", a); c.log("op %d", which); if (a.nnz() > 1) c.nontrivial();
  if (which <= 1) { // triplets in random order
    int nz = a.nnz(); VI ti, tj, ord; V tx; for (int j = 0; j < n; j++) for (OSQPInt k = a.p[j]; k < a.p[j + 1]; k++) { ti.push_back(a.i[k]); tj.push_back(j); tx.push_back(a.x[k]); } for (int k = nz - 1; k > 0; k--) { int q = s.range(0, k); std::swap(ti[k], ti[q]); std::swap(tj[k], tj[q]); std::swap(tx[k], tx[q]); } if (which && m != n) { m = n = std::max(m, n); }
    Own T(csc_spalloc(m, n, nz + s.range(0, 3), 1, 1)); for (int k = 0; k < nz; k++) { T->i[k] = ti[k]; T->p[k] = tj[k]; T->x[k] = tx[k]; } T->nz = nz; VI map(nz + 1, -3); bool wm = s.chance(2, 3); Own C(which ? triplet_to_csr(T.M, wm ? map.data() : nullptr) : triplet_to_csc(T.M, wm ? map.data() : nullptr)); CHECK(c, C.M && C->m == m && C->n == n, "convert:triplet", "conversion failed"); Ent e = entries(c, C.M, "triplet"), w; for (int k = 0; k < nz; k++) w[which ? std::make_pair((int)tj[k], (int)ti[k]) : std::make_pair((int)ti[k], (int)tj[k])] = tx[k]; same(c, e, w, which ? "triplet_to_csr" : "triplet_to_csc"); if (wm) for (int k = 0; k < nz; k++) CHECK(c, map[k] >= 0 && map[k] < nz && C->x[map[k]] == tx[k] && C->i[map[k]] == (which ? tj[k] : ti[k]), "convert:triplet-map", "triplet %d maps to %d", k, (int)map[k]); c.label(which ? "csr" : "csc"); }
  else if (which == 2) { VI p(n), ip; for (int k = 0; k < n; k++) p[k] = k; for (int k = n - 1; k > 0; k--) std::swap(p[k], p[s.range(0, k)]); OSQPInt* pi = csc_pinv(p.data(), n); CHECK(c, pi || !n, "convert:pinv", "failed"); for (int k = 0; k < n; k++) CHECK(c, pi[p[k]] == k, "convert:pinv", "not the inverse at %d", k); Csc t = gmat(s, n, n, true); logm(c, "T", t); OSQPCscMatrix tv = t.view(); VI map(t.nnz() + 1, -3); bool wm = s.chance(2, 3), id = s.chance(1, 6); Own C(csc_symperm(&tv, id ? nullptr : pi, wm ? map.data() : nullptr, 1)); CHECK(c, C.M && C->m == n && C->n == n, "convert:symperm", "failed"); Ent e = entries(c, C.M, "symperm"), w; for (int j = 0; j < n; j++) for (OSQPInt k = t.p[j]; k < t.p[j + 1]; k++) { int i2 = id ? (int)t.i[k] : (int)pi[t.i[k]], j2 = id ? j : (int)pi[j]; w[{std::min(i2, j2), std::max(i2, j2)}] = t.x[k]; if (wm) { OSQPInt d = map[k]; CHECK(c, d >= 0 && d < t.nnz() && C->x[d] == t.x[k] && C->i[d] == std::min(i2, j2) && C->p[std::max(i2, j2)] <= d && d < C->p[std::max(i2, j2) + 1], "convert:symperm-map", "entry %d maps to %d", (int)k, (int)d); } } c_free(pi); same(c, e, w, "symperm"); c.label("symperm"); }
  else if (which == 3) { Csc t = gmat(s, n, n, true); logm(c, "T", t); OSQPCscMatrix tv = t.view(); Own C(triu_to_csc(&tv)); CHECK(c, C.M && C->m == n && C->n == n, "convert:triu_to_csc", "failed"); Ent w; for (auto& e : entries(t)) { w[e.first] = e.second; w[{e.first.second, e.first.first}] = e.second; } same(c, entries(c, C.M, "triu_to_csc"), w, "triu_to_csc"); for (int j = 0; j < n; j++) for (OSQPInt k = C->p[j] + 1; k < C->p[j + 1]; k++) CHECK(c, C->i[k] > C->i[k - 1], "convert:triu_to_csc", "rows of column %d are not sorted", j); }
  else if (which == 4) { Csc b = gmat(s, s.range(0, 6), n, false); logm(c, "B", b); OSQPCscMatrix bv = b.view(); Own C(vstack(&v, &bv)); CHECK(c, C.M && C->m == m + b.m && C->n == n, "convert:vstack", "failed"); Ent w = entries(a); for (auto& e : entries(b)) w[{e.first.first + m, e.first.second}] = e.second; same(c, entries(c, C.M, "vstack"), w, "vstack"); Csc wr = gmat(s, 2, n + 1, false); OSQPCscMatrix wv = wr.view(); Own N(vstack(&v, &wv)); CHECK(c, !N.M, "convert:vstack", "matrices with different numbers of columns were stacked"); }
  else if (which == 5) { VI t(m); for (auto& e : t) e = s.chance(1, 2) ? s.range(-1, 2) : 0; VI tk = t; Own C(csc_submatrix_byrows(&v, t.data())); CHECK(c, C.M && C->n == n, "convert:submatrix", "failed"); std::vector<int> ix(m, -1); int q = 0; for (int i = 0; i < m; i++) if (t[i]) ix[i] = q++; CHECK(c, C->m == q && t == tk, "convert:submatrix", "%d rows instead of %d", (int)C->m, q); Ent w; for (auto& e : entries(a)) if (ix[e.first.first] >= 0) w[{ix[e.first.first], e.first.second}] = e.second; same(c, entries(c, C.M, "submatrix"), w, "submatrix"); }
  else { Own C(csc_copy(&v)); CHECK(c, C.M && C->m == m && C->n == n, "convert:copy", "failed"); same(c, entries(c, C.M, "copy"), entries(a), "copy"); CHECK(c, csc_is_eq(C.M, &v, 0), "convert:is_eq", "a copy differs"); V d(n + 1, 5); csc_extract_diag(&v, d.data()); Ent e = entries(a); for (int j = 0; j < n; j++) CHECK(c, d[j] == (e.count({j, j}) ? e[{j, j}] : 0), "convert:extract_diag", "entry %d is %g", j, (double)d[j]); CHECK(c, d[n] == 5, "convert:extract_diag", "wrote behind the array"); OSQPFloat* D = csc_to_dns(&v); CHECK(c, D, "convert:to_dns", "failed"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK(c, D[j * m + i] == (e.count({i, j}) ? e[{i, j}] : 0), "convert:to_dns", "entry (%d,%d) is %g", i, j, (double)D[j * m + i]); c_free(D); if (a.nnz()) { int k = s.range(0, a.nnz() - 1); C->x[k] += 1; CHECK(c, !csc_is_eq(C.M, &v, (OSQPFloat)0.5) && csc_is_eq(C.M, &v, 2), "convert:is_eq", "entry %d differs by one", k); } }
  CHECK(c, a.p == copy.p && a.i == copy.i && a.x == copy.x, "convert:input", "the input was changed");
}

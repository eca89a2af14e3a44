// B02: directional Dirichlet conditions V u = bc on d components given by indices, V rows of an orthogonal matrix. Oracle: the transformation written out in long double, and the residual identities it stands for.
#include "mon.h"
#include "anifem++/fem/fem_memory.h"
#include "anifem++/fem/operations/dc_on_dof.h"
using namespace Ani; using namespace mon; typedef long double L;
template<class S> static std::vector<L> orth(Rng& r, int d, int kind) { std::vector<L> q(d*d, 0); // row-wise: q[i*d+j]
    if (kind == 0) { for (int i = 0; i < d; ++i) q[i*d+i] = 1; return q; } if (kind == 1) { std::vector<int> p(d); for (int i = 0; i < d; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i < d; ++i) q[i*d+p[i]] = r.coin() ? 1 : -1; return q; }
    for (;;) { for (auto& x : q) x = r.sym(); bool ok = true; for (int i = 0; i < d && ok; ++i) for (int t = 0; t < 2; ++t) { for (int k = 0; k < i; ++k) { L s = 0; for (int j = 0; j < d; ++j) s += q[i*d+j]*q[k*d+j]; for (int j = 0; j < d; ++j) q[i*d+j] -= s*q[k*d+j]; } L s = 0; for (int j = 0; j < d; ++j) s += q[i*d+j]*q[i*d+j]; s = std::sqrt(s); if (s < 0.05L) { ok = false; break; } for (int j = 0; j < d; ++j) q[i*d+j] /= s; } if (ok) break; } for (auto& x : q) x = L(S(x)); return q; }
template<class S> struct Prob { int n, d, ndc; std::vector<L> Q, A, F, bc; std::vector<int> id; std::vector<unsigned> dc; bool useDc; std::unique_ptr<S[]> q; DenseMatrix<S> V;
    Prob(Rng& r, bool vary) { d = r.coin(2, 3) ? r.range(1, 3) : r.range(1, 6); n = d + (vary ? r.range(0, 20) : 0); int kind = r.range(0, 3); Q = orth<S>(r, d, kind); ndc = r.range(0, d); if (r.coin()) ndc = std::min(d, 1); std::vector<int> all(n); for (int i = 0; i < n; ++i) all[i] = i; if (r.coin(3, 4)) r.shuffle(all); id.assign(all.begin(), all.begin()+d); dc.resize(d); for (int i = 0; i < d; ++i) dc[i] = unsigned(i); useDc = r.coin(); if (useDc) r.shuffle(dc); dc.resize(ndc); A.resize(n*n); for (auto& x : A) x = L(S(r.coin(1, 5) ? 0 : r.sym())); F.resize(n); for (auto& x : F) x = L(S(r.sym())); bc.resize(ndc); for (auto& x : bc) x = L(S(r.coin(1, 5) ? 0 : r.sym()*3)); q.reset(new S[d*d]); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q[i+d*j] = S(Q[i*d+j]); V.Init(q.get(), d, d, d*d); kindName = kind; }
    int kindName; const unsigned* dcp() const { return useDc ? dc.data() : nullptr; }
    std::string str() const { return fmt("n=%d d=%d ndc=%d V kind %d%s dofs %d..", n, d, ndc, kindName, useDc ? " selected" : "", id[0]); }
    // the transformation: rows of the dofs rotated, constrained combinations removed from the columns, constrained rows replaced by V u = bc
    void model(std::vector<L>& B, std::vector<L>& G) const { B = A; G = F; for (int j = 0; j < n; ++j) for (int i = 0; i < d; ++i) { L s = 0; for (int p = 0; p < d; ++p) s += Q[i*d+p]*A[id[p]+n*j]; B[id[i]+n*j] = s; } for (int i = 0; i < d; ++i) { L s = 0; for (int p = 0; p < d; ++p) s += Q[i*d+p]*F[id[p]]; G[id[i]] = s; }
        std::vector<L> C = B, H = G; for (int k = 0; k < ndc; ++k) for (int i = 0; i < n; ++i) { L s = 0; for (int p = 0; p < d; ++p) s += C[i+n*id[p]]*Q[dc[k]*d+p]; for (int p = 0; p < d; ++p) B[i+n*id[p]] -= s*Q[dc[k]*d+p]; G[i] -= s*bc[k]; }
        for (int k = 0; k < ndc; ++k) { int row = id[dc[k]]; for (int j = 0; j < n; ++j) B[row+n*j] = 0; for (int p = 0; p < d; ++p) B[row+n*id[p]] = Q[dc[k]*d+p]; G[row] = bc[k]; } (void)H; } };
template<class S> static bool cmp(Mon& m, const std::string& key, const char* what, const S* got, const std::vector<L>& want, L tol, const std::string& ctx) { for (size_t i = 0; i < want.size(); ++i) if (!m.check(std::fabs(L(got[i]) - want[i]) <= tol, key, "%s[%zu] = %.10Lg instead of %.10Lg; %s", what, i, L(got[i]), want[i], ctx.c_str())) return false; return true; }
template<class S> static void whole(Mon& m, Rng& r) { Prob<S> p(r, true); int w = r.range(0, 2); static const char* nm[] = {"applyVectorDir", "applyVectorDirMatrix", "applyVectorDirResidual"}; int n = p.n; std::unique_ptr<S[]> a(new S[n*n]), f(new S[n]), b(new S[std::max(1, p.ndc)]); for (int i = 0; i < n*n; ++i) a[i] = S(p.A[i]); for (int i = 0; i < n; ++i) f[i] = S(p.F[i]); for (int i = 0; i < p.ndc; ++i) b[i] = S(p.bc[i]); DenseMatrix<S> A(a.get(), n, n), F(f.get(), n, 1); ArrayView<S> bc(b.get(), p.ndc); size_t ms = w == 2 ? p.d : p.d*n; std::unique_ptr<S[]> mem(new S[ms]); std::fill(mem.get(), mem.get()+ms, S(NAN)); std::unique_ptr<unsigned[]> ids(new unsigned[p.d]), dcs(new unsigned[std::max(1, p.ndc)]); for (int i = 0; i < p.d; ++i) ids[i] = unsigned(p.id[i]); for (int i = 0; i < p.ndc; ++i) dcs[i] = p.dc[i]; const unsigned* dcp = p.useDc ? dcs.get() : nullptr; 
    m.key(nm[w]); m.desc("%s %s", nm[w], p.str().c_str()); m.eval(); m.obs(nm[w]); m.distinct(fmt("%d/%d/%d/%d/%d/%d/%zu", w, n, p.d, p.ndc, p.kindName, p.useDc, sizeof(S))); ArrayView<S> mv(mem.get(), ms); bool vec = r.coin(); std::vector<int> idv(p.id);
    if (w == 0) { if (vec) applyVectorDir(A, F, idv.begin(), p.V, bc, mv, p.ndc, dcp); else applyVectorDir(A, F, (const unsigned*)ids.get(), p.V, bc, mv, p.ndc, dcp); } else if (w == 1) { if (vec) applyVectorDirMatrix(A, idv, p.V, mv, p.ndc, dcp); else applyVectorDirMatrix(A, (const unsigned*)ids.get(), p.V, mv, p.ndc, dcp); } else { if (vec) applyVectorDirResidual(F, idv, p.V, mv, p.ndc, dcp); else applyVectorDirResidual(F, (const unsigned*)ids.get(), p.V, mv, p.ndc, dcp); }
    std::vector<L> B, G; p.model(B, G); if (w == 2) { G = p.F; for (int i = 0; i < p.d; ++i) { L s = 0; for (int q = 0; q < p.d; ++q) s += p.Q[i*p.d+q]*p.F[p.id[q]]; G[p.id[i]] = s; } for (int k = 0; k < p.ndc; ++k) G[p.id[p.dc[k]]] = 0; } if (w == 1) G = p.F; L eps = std::numeric_limits<S>::epsilon(), tol = eps*60*p.d*p.d; std::string c = p.str(); if (w != 2 && !cmp(m, std::string(nm[w]) + ":matrix", "A", a.get(), B, tol, c)) return; if (w == 2 && !cmp(m, std::string(nm[w]) + ":matrix", "A", a.get(), p.A, 0, c)) return; if (!cmp(m, std::string(nm[w]) + ":rhs", "F", f.get(), G, w == 1 ? 0 : tol*10, c)) return;
    if (w != 0) return; // the meaning: take any u with V u = bc
    for (int t = 0; t < 2; ++t) { std::vector<L> u(n); for (auto& x : u) x = r.sym()*3; std::vector<L> z(p.d, 0); for (int i = 0; i < p.d; ++i) { L y = r.sym()*3; for (int k = 0; k < p.ndc; ++k) if (int(p.dc[k]) == i) y = p.bc[k]; for (int j = 0; j < p.d; ++j) z[j] += y*p.Q[i*p.d+j]; } for (int j = 0; j < p.d; ++j) u[p.id[j]] = z[j]; std::vector<L> res(n), now(n); for (int i = 0; i < n; ++i) { res[i] = -p.F[i]; now[i] = -L(f[i]); for (int j = 0; j < n; ++j) { res[i] += p.A[i+n*j]*u[j]; now[i] += L(a[i+n*j])*u[j]; } } std::vector<char> own(n, 0); L T = eps*300*p.d*(n+3); for (int i = 0; i < p.d; ++i) { own[p.id[i]] = 1; bool con = false; for (int k = 0; k < p.ndc; ++k) con |= int(p.dc[k]) == i; L s = 0; for (int q = 0; q < p.d; ++q) s += p.Q[i*p.d+q]*res[p.id[q]]; if (!m.check(std::fabs(now[p.id[i]] - (con ? 0 : s)) <= T, con ? "meaning:value" : "meaning:direction", "equation %d: residual %Lg instead of %Lg; %s", p.id[i], now[p.id[i]], con ? 0 : s, c.c_str())) return; } for (int i = 0; i < n; ++i) if (!own[i] && !m.check(std::fabs(now[i] - res[i]) <= T, "meaning:other", "equation %d of another unknown: residual %Lg instead of %Lg; %s", i, now[i], res[i], c.c_str())) return; m.obs("solutions judged"); } }
SECTION(whole) { run_cases(m, m.cases(8000, 200000), [&](long c, Rng& r) { if (c % 3 == 2) whole<long double>(m, r); else if (c % 3 == 1) whole<float>(m, r); else whole<double>(m, r); }); }
// further columns and rows (other unknowns) agree with the transformation of the whole matrix
SECTION(extra) { run_cases(m, m.cases(4000, 100000), [&](long, Rng& r) { Prob<double> p(r, true); std::vector<L> B, G; p.model(B, G); int n = p.n; std::vector<char> own(n, 0); for (int i : p.id) own[i] = 1; std::vector<int> oth; for (int i = 0; i < n; ++i) if (!own[i]) oth.push_back(i); if (oth.empty()) return; int j = r.pick(oth); bool col = r.coin(); std::unique_ptr<double[]> v(new double[n]), mem(new double[p.d]); std::fill(mem.get(), mem.get()+p.d, NAN); for (int i = 0; i < n; ++i) v[i] = double(col ? p.A[i+n*j] : p.A[j+n*i]); ArrayView<> V(v.get(), n), mv(mem.get(), p.d); const char* nm = col ? "applyVectorDirMatrixExtCol" : "applyVectorDirMatrixExtRow"; m.key(nm); m.desc("%s %s", nm, p.str().c_str()); m.eval(); m.obs(nm); m.distinct(fmt("x%d/%d/%d/%d/%d", col, n, p.d, p.ndc, p.kindName)); if (col) applyVectorDirMatrixExtCol(V, p.id, p.V, mv, p.ndc, p.dcp()); else applyVectorDirMatrixExtRow(V, p.id, p.V, p.ndc, p.dcp()); std::vector<L> w(n); for (int i = 0; i < n; ++i) w[i] = col ? B[i+n*j] : B[j+n*i]; cmp(m, nm, "entry", v.get(), w, 1e-13L*p.d*p.d, p.str()); }); }
// coordinate directions: the scalar condition
SECTION(coordinate) { run_cases(m, m.cases(3000, 60000), [&](long, Rng& r) { Prob<double> p(r, true); for (int i = 0; i < p.d; ++i) for (int j = 0; j < p.d; ++j) p.q[i+p.d*j] = i == j; int n = p.n; std::unique_ptr<double[]> a(new double[n*n]), f(new double[n]), mem(new double[p.d*n]), a1(new double[n*n]), f1(new double[n]), b(new double[p.ndc+1]); for (int i = 0; i < n*n; ++i) a[i] = a1[i] = double(p.A[i]); for (int i = 0; i < n; ++i) f[i] = f1[i] = double(p.F[i]); for (int k = 0; k < p.ndc; ++k) b[k] = double(p.bc[k]); DenseMatrix<> A(a.get(), n, n), F(f.get(), n, 1), A1(a1.get(), n, n), F1(f1.get(), n, 1); ArrayView<> mv(mem.get(), p.d*n), bv(b.get(), p.ndc); m.key("coordinate"); m.desc("coordinate %s", p.str().c_str()); m.eval(); m.distinct(fmt("c%d/%d/%d", n, p.d, p.ndc)); applyVectorDir(A, F, p.id, p.V, bv, mv, p.ndc, p.dcp()); for (int k = 0; k < p.ndc; ++k) applyDir(A1, F1, p.id[p.dc[k]], b[k]); for (int i = 0; i < n*n; ++i) if (!m.close(a[i], a1[i], 1e-14, "coordinate", "matrix entry", i % n, i / n)) return; for (int i = 0; i < n; ++i) if (!m.close(f[i], f1[i], 1e-13, "coordinate", "right-hand side", i, 0)) return; m.obs("coordinate directions compared"); }); }
// too little work memory is refused
SECTION(memory) { run_cases(m, m.cases(500, 5000), [&](long, Rng& r) { Prob<double> p(r, true); int n = p.n; std::vector<double> a(n*n, 1), f(n, 1), b(p.ndc+1, 1); int full = p.d*n, have = r.range(0, full-1); std::unique_ptr<double[]> mem(new double[std::max(1, have)]); DenseMatrix<> A(a.data(), n, n), F(f.data(), n, 1); ArrayView<> mv(mem.get(), have), bv(b.data(), p.ndc); m.key("memory"); m.desc("memory %d of %d %s", have, full, p.str().c_str()); m.eval(); m.distinct(fmt("m%d/%d", full, have)); m.check(throws([&] { applyVectorDir(A, F, p.id, p.V, bv, mv, p.ndc, p.dcp()); }), "memory", "work memory of %d instead of %d was accepted", have, full); m.check(throws([&] { applyVectorDirMatrix(A, p.id, p.V, mv, p.ndc, p.dcp()); }), "memory", "work memory of %d instead of %d was accepted", have, full); if (have < p.d) m.check(throws([&] { applyVectorDirResidual(F, p.id, p.V, mv, p.ndc, p.dcp()); }), "memory", "work memory of %d instead of %d was accepted", have, p.d); }); }

// B01: scalar Dirichlet conditions. For every u with the prescribed values the residual of unconstrained equations is kept, constrained equations read u_k = bc.
#include "dofmodel.h"
#include "anifem++/fem/operations/dc_on_dof.h"
using namespace dm; typedef long double L;
template<class S> struct Sys { int n; std::unique_ptr<S[]> a, f, a0, f0; DenseMatrix<S> A, F; bool sym;
    Sys(Rng& r, int n, bool sym) : n(n), a(new S[size_t(n)*n]), f(new S[n]), a0(new S[size_t(n)*n]), f0(new S[n]), sym(sym) { int e = r.range(-6, 6); S sc = std::pow(S(10), S(e)); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) a[i+n*j] = r.coin(1, 5) ? S(0) : S(r.sym())*sc; if (sym) for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) a[j+n*i] = a[i+n*j]; for (int i = 0; i < n; ++i) f[i] = S(r.sym())*sc; std::copy(a.get(), a.get()+size_t(n)*n, a0.get()); std::copy(f.get(), f.get()+n, f0.get()); A.Init(a.get(), n, n, size_t(n)*n); F.Init(f.get(), n, 1, n); }
    // trial dofs fixed (with values), equations replaced; mode: 0 matrix and rhs, 1 matrix only, 2 matrix and zero residual, 3 residual only, 4 missing unknown with rhs, 5 missing unknown matrix only
    bool judge(Mon& m, Rng& r, const std::string& key, int mode, const std::vector<char>& trial, const std::vector<char>& test, const std::vector<S>& val, bool pairOk(int, int, void*), void* pd) { L eps = std::numeric_limits<S>::epsilon();
        auto bit = [](S x, S y) { return std::memcmp(&x, &y, sizeof(S) < 10 ? sizeof(S) : 10) == 0; }; int nc = 0;
        for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { S v = a[i+n*j]; bool c = mode != 3 && (trial[j] || test[i]); if (!c) { if (!m.check(bit(v, a0[i+n*j]), key + ":other", "entry (%d,%d) outside of constrained rows and columns changed: %g -> %g", i, j, double(a0[i+n*j]), double(v))) return false; } else if (mode >= 4) { if (!m.check(v == 0, key + ":zero", "entry (%d,%d) is %g", i, j, double(v))) return false; } else if (!m.check(v == 0 || (trial[j] && test[i] && v == 1), key + ":row", "entry (%d,%d) is %g", i, j, double(v))) return false; }
        if (mode < 3) for (int j = 0; j < n; ++j) if (trial[j]) { int rows = 0; for (int i = 0; i < n; ++i) if (a[i+n*j] != 0) { ++rows; if (!m.check(pairOk(i, j, pd), key + ":pair", "unknown %d is fixed in the equation of %d of another geometric part", j, i)) return false; } ++nc; if (!m.check(rows == 1, key + ":row", "fixed unknown %d appears in %d equations", j, rows)) return false; }
        if (mode < 3) for (int i = 0; i < n; ++i) if (test[i]) { int cs = 0; for (int j = 0; j < n; ++j) cs += a[i+n*j] != 0; if (!m.check(cs == 1, key + ":row", "equation %d has %d unknowns", i, cs)) return false; }
        if (mode < 3 && sym && trial == test) for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) if (pd == nullptr && !m.check(a[i+n*j] == a[j+n*i], key + ":symmetry", "entry (%d,%d) differs from (%d,%d)", i, j, j, i)) return false;
        // right-hand side
        if (mode == 1 || mode == 5) { for (int i = 0; i < n; ++i) if (!m.check(bit(f[i], f0[i]), key + ":rhs", "right-hand side %d changed", i)) return false; }
        else if (mode >= 2) { for (int i = 0; i < n; ++i) if (test[i] ? !m.check(f[i] == 0, key + ":rhs", "residual %d is %g", i, double(f[i])) : !m.check(bit(f[i], f0[i]), key + ":rhs", "residual %d changed", i)) return false; }
        else for (int k = 0; k < 2; ++k) { std::vector<L> u(n); for (int j = 0; j < n; ++j) u[j] = trial[j] ? L(val[j]) : L(r.sym())*std::pow(10.0L, r.range(-2, 2));
            for (int i = 0; i < n; ++i) { L s0 = -f0[i], s1 = -f[i], mg = std::fabs(L(f0[i])) + std::fabs(L(f[i])); for (int j = 0; j < n; ++j) { s0 += L(a0[i+n*j])*u[j]; s1 += L(a[i+n*j])*u[j]; mg += std::fabs(L(a0[i+n*j])*u[j]); } if (test[i]) { if (!m.check(s1 == 0, key + ":value", "equation %d is not satisfied by the prescribed values: %Lg", i, s1)) return false; } else if (!m.check(std::fabs(s1 - s0) <= 2*(n+4)*eps*mg, key + ":equation", "equation %d: residual %Lg instead of %Lg (of %Lg)", i, s1, s0, mg)) return false; } }
        m.obs("constrained unknowns", nc); m.obs("systems judged"); return true; } };
static bool same(int i, int j, void*) { return i == j; }
template<class S> static void byIndex(Mon& m, Rng& r) { int n = r.range(1, r.coin() ? 6 : 40), mode = r.range(0, 5); if (mode == 3 && false) mode = 0; Sys<S> s(r, n, r.coin()); std::vector<char> c(n, 0); std::vector<S> v(n, S(0)); std::vector<int> ks; for (int q = r.range(1, r.coin() ? 3 : n); q > 0; --q) { int k = r.range(0, n-1); if (!c[k]) v[k] = r.coin(1, 5) ? S(0) : S(r.sym())*std::pow(S(10), S(r.range(-3, 3))); c[k] = 1; ks.push_back(k); } bool dup = r.coin(1, 4); if (!dup) { std::vector<int> u; for (int k : ks) if (std::find(u.begin(), u.end(), k) == u.end()) u.push_back(k); ks = u; }
    static const char* nm[] = {"applyDir", "applyDirMatrix", "applyDirMatrix+Residual", "applyDirResidual", "applyDirNonExists", "applyDirNonExists(A)"}; m.key(std::string("index:") + nm[mode]); m.desc("%s n=%d indices %d.. (%zu)", nm[mode], n, ks[0], ks.size()); m.eval(); m.distinct(fmt("%d/%d/%zu/%zu/%d", mode, n, ks.size(), sizeof(S), s.sym)); m.obs(nm[mode]);
    for (int k : ks) switch (mode) { case 0: applyDir(s.A, s.F, k, v[k]); break; case 1: applyDirMatrix(s.A, k); break; case 2: applyDirMatrix(s.A, k); applyDirResidual(s.F, k); break; case 3: applyDirResidual(s.F, k); break; case 4: applyDirNonExists(s.A, s.F, k); break; default: applyDirNonExists(s.A, k); }
    s.judge(m, r, std::string("index:") + nm[mode], mode, c, c, v, same, nullptr); }
SECTION(index) { run_cases(m, m.cases(6000, 150000), [&](long c, Rng& r) { if (c % 4 == 3) byIndex<long double>(m, r); else if (c % 4 == 2) byIndex<float>(m, r); else byIndex<double>(m, r); }); }
static int maskOf(Rng& r) { switch (r.range(0, 5)) { case 0: return r.range(0, 0x7fff); case 1: return 1 << r.range(0, 14); case 2: return 0x7fff; case 3: return 0; case 4: { int f = r.range(0, 3), k = 1 << (10+f); for (int i = 0; i < 3; ++i) k |= 1 << FN[f][i]; for (int e = 0; e < 6; ++e) { int q = 0; for (int i = 0; i < 3; ++i) q += (FN[f][i] == EN[e][0]) + (FN[f][i] == EN[e][1]); if (q == 2) k |= 1 << (4+e); } return k; } default: return r.range(0, 0x3fff) & r.range(0, 0x7fff); } }
struct PD { const std::vector<D>*u, *v; };
static bool entity(int i, int j, void* p) { auto* q = (PD*)p; const D &a = (*q->v)[i], &b = (*q->u)[j]; return DIMOF[a.num] == DIMOF[b.num] && a.nelem == b.nelem; }
SECTION(layout) { run_cases(m, m.cases(2500, 60000), [&](long, Rng& r) { P nd = randNode(r, r.range(0, 2)); int n = int(nd->total()); if (n == 0 || n > 90) return; auto map = r.coin() ? make(*nd, r) : nullptr; DofMap ops; if (!map) { ops = makeOps(*nd, r); } const BaseDofMap& M = map ? *map : *ops.base(); auto ls = nd->list(); int mask = maskOf(r); auto sp = mkSp(mask); int w = r.range(0, 9); Sys<double> s(r, n, r.coin()); std::vector<char> c(n); for (int i = 0; i < n; ++i) c[i] = sel(mask, ls[i].num, ls[i].nelem); std::vector<double> v(n); double bc = r.coin(1, 6) ? 0 : r.sym()*3; bool cst = r.coin(); for (auto& x : v) x = cst ? bc : r.sym(); 
    std::unique_ptr<double[]> dofs(new double[n]); std::copy(v.begin(), v.end(), dofs.get()); for (int i = 0; i < n; ++i) if (!c[i]) dofs[i] = NAN; ArrayView<const double> dv(dofs.get(), n); static const char* nm[] = {"applyDirMatrix", "applyDirResidual", "applyDirResidual(A,F)", "applyDirNonExists", "applyDirByDofs", "applyDirMatrix2", "applyDirResidual2", "applyDirNonExists2(A)", "applyDirNonExists2", "applyDirByDofs2"}; std::string key = std::string("layout:") + nm[w]; m.key(key); m.desc("%s %s selection %#x", nm[w], nd->str().c_str(), mask); m.eval(); m.obs(nm[w]); m.distinct(nd->str() + fmt("%d/%x", w, mask));
    switch (w) { case 0: applyDirMatrix(M, s.A, sp); break; case 1: applyDirResidual(M, s.F, sp); break; case 2: applyDirResidual(M, s.A, s.F, sp); break; case 3: applyDirNonExists(M, s.A, s.F, sp); break; case 4: if (cst) applyConstantDirByDofs(M, s.A, s.F, sp, bc); else applyDirByDofs(M, s.A, s.F, sp, dv); break; case 5: applyDirMatrix(M, M, s.A, sp); break; case 6: applyDirResidual(M, M, s.A, s.F, sp); break; case 7: applyDirNonExists(M, M, s.A, sp); break; case 8: applyDirNonExists(M, M, s.A, s.F, sp); break; default: if (cst) applyConstantDirByDofs(M, M, s.A, s.F, sp, bc); else applyDirByDofs(M, M, s.A, s.F, sp, dv); }
    static const int mode[] = {1, 3, 2, 4, 0, 1, 2, 5, 4, 0}; s.judge(m, r, key, mode[w], c, c, v, same, nullptr); }); }
// different trial and test layouts with as many dofs on every geometric part
static P shuffled(Rng& r, const P& a) { auto b = std::make_shared<Node>(*a); for (auto& c : b->ch) c = shuffled(r, c); if (b->k == Node::Cpx) r.shuffle(b->ch); if (b->k == Node::Unite && !b->has_sym && r.coin()) { std::swap(b->cnt[1], b->cnt[2]); std::swap(b->cnt[3], b->cnt[4]); } if (b->k == Node::Vec && b->dim <= 3 && r.coin()) { std::vector<P> q(b->dim, b->ch[0]); if (!q.empty()) return mkCpx(q); } return b; }
SECTION(pair) { run_cases(m, m.cases(2000, 50000), [&](long, Rng& r) { P nu = randNode(r, r.range(1, 3)), nv = r.coin(1, 8) ? nu : shuffled(r, nu); int n = int(nu->total()); if (n == 0 || n > 90 || int(nv->total()) != n) return; auto mu = make(*nu, r), mv = make(*nv, r); auto lu = nu->list(), lv = nv->list(); int mask = maskOf(r); auto sp = mkSp(mask); Sys<double> s(r, n, false); std::vector<char> cu(n), cv(n); for (int i = 0; i < n; ++i) { cu[i] = sel(mask, lu[i].num, lu[i].nelem); cv[i] = sel(mask, lv[i].num, lv[i].nelem); } std::vector<double> v(n); double bc = r.sym()*3; bool cst = r.coin(); for (auto& x : v) x = cst ? bc : r.sym(); std::unique_ptr<double[]> dofs(new double[n]); std::copy(v.begin(), v.end(), dofs.get()); for (int i = 0; i < n; ++i) if (!cu[i]) dofs[i] = NAN; ArrayView<const double> dv(dofs.get(), n);
    int w = r.range(0, 4); static const char* nm[] = {"applyDirMatrix", "applyDirResidual", "applyDirNonExists(A)", "applyDirNonExists", "applyDirByDofs"}; std::string key = std::string("pair:") + nm[w]; m.key(key); m.desc("%s trial %s test %s selection %#x", nm[w], nu->str().c_str(), nv->str().c_str(), mask); m.eval(); m.obs(std::string("pair ") + nm[w]); m.distinct(nu->str() + nv->str() + fmt("%d", w));
    switch (w) { case 0: applyDirMatrix(*mu, *mv, s.A, sp); break; case 1: applyDirResidual(*mu, *mv, s.A, s.F, sp); break; case 2: applyDirNonExists(*mu, *mv, s.A, sp); break; case 3: applyDirNonExists(*mu, *mv, s.A, s.F, sp); break; default: if (cst) applyConstantDirByDofs(*mu, *mv, s.A, s.F, sp, bc); else applyDirByDofs(*mu, *mv, s.A, s.F, sp, dv); } static const int mode[] = {1, 2, 5, 4, 0}; PD pd{&lu, &lv}; s.judge(m, r, key, mode[w], cu, cv, v, entity, &pd); }); }

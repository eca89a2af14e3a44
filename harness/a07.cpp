// A07: operator (times coefficient) of a discrete field at points equals the combination of the operator of the basis, through every interface.
#include "aform.h"
using namespace af;
struct Field { Form F; vector<double> dofs; int nf, D, q; vector<L> val; vector<L> mag; vector<L> tol; };   // val[k + D*(n + q*r)] before the coefficient
static Field randField(Rng& r, const Sp& s, int op, bool cart) {
    Field f; f.F.dom = cart ? PNTX : PNTL; int nt = cart ? 1 : vector<int>{1, 1, 2, 3, 4}[r.range(0, 4)]; for (int i = 0; i < nt; ++i) f.F.ts.push_back(orc::randTet(r));
    int q = vector<int>{1, 1, 2, 3, 4, 7, 24}[r.range(0, 6)]; f.q = q; f.nf = s.nf(); f.D = orc::dimOp(op, s.dim());
    for (int n = 0; n < q; ++n) { double l[4]; orc::randBary(r, l, true); for (int i = 0; i < 4; ++i) f.F.XYL.push_back(l[i]); f.F.WG.push_back(1); }
    if (cart) for (int n = 0; n < q; ++n) { L l[4], x[3]; for (int i = 0; i < 4; ++i) l[i] = f.F.XYL[4*n+i]; f.F.ts[0].point(l, x); for (int k = 0; k < 3; ++k) f.F.X.push_back(double(x[k])); }
    f.dofs.resize(size_t(f.nf)*nt); double sc = r.coin() ? 1 : std::pow(10., r.range(-6, 6)); int kind = r.range(0, 4); for (size_t i = 0; i < f.dofs.size(); ++i) f.dofs[i] = kind == 0 ? sc : r.coin(1, 8) ? 0 : sc*r.sym(); if (kind == 1) { std::fill(f.dofs.begin(), f.dofs.end(), 0); f.dofs[r.range(0, int(f.dofs.size())-1)] = sc; }
    f.val.assign(size_t(f.D)*q*nt, 0); f.mag = f.val; f.tol.resize(nt);
    for (int t = 0; t < nt; ++t) { const Tet& T = f.F.ts[t]; L lm = 1, sd = 0, mB = 0; for (int i = 0; i < f.nf; ++i) sd += fabsl(f.dofs[i+size_t(f.nf)*t]);
        for (int n = 0; n < q; ++n) { L l[4]; if (cart) { L x[3] = {f.F.X[3*n], f.F.X[3*n+1], f.F.X[3*n+2]}; T.bary(x, l); } else for (int i = 0; i < 4; ++i) l[i] = f.F.XYL[4*n+i]; for (int i = 0; i < 4; ++i) lm = std::max(lm, fabsl(l[i]));
            auto O = orc::opVals(op, s, T, l); mB = std::max(mB, orc::maxabs(O)); for (int i = 0; i < f.nf; ++i) for (int k = 0; k < f.D; ++k) f.val[k + size_t(f.D)*(n + size_t(q)*t)] += f.dofs[i+size_t(f.nf)*t]*O[size_t(i)*f.D+k]; }
        L to = lib::opTol(op, T, double(lm)); if (cart) { L sh = std::max(L(1), T.shift/T.h); to += 100*1e-15L*T.kappa*(1+sh)*(mB + (op == orc::IDEN ? 1 : 1/T.h)); }
        f.tol[t] = 0.2L*sd*(to + 1e-14L*mB) + 1e-300L; }
    return f; }
struct Res { std::unique_ptr<double[]> d; size_t n; DenseMatrix<> A; Res(size_t n) : d(new double[n]), n(n) { for (size_t i = 0; i < n; ++i) d[i] = NAN; A.Init(d.get(), 0, 0, n); } };
static void cmp(Mon& m, const std::string& key, const Field& f, int R, const vector<L>& want, const vector<L>& tol, const Res& o, bool shape = true) {
    if (shape) m.check((int)o.A.nRow == R*f.q && (int)o.A.nCol == f.F.f(), key + ":shape", "result is %zux%zu want %dx%d", (size_t)o.A.nRow, (size_t)o.A.nCol, R*f.q, f.F.f());
    for (int t = 0; t < f.F.f(); ++t) for (int n = 0; n < f.q; ++n) for (int k = 0; k < R; ++k) if (!m.close(o.d[k + size_t(R)*(n + size_t(f.q)*t)], double(want[k + size_t(R)*(n + size_t(f.q)*t)]), double(tol[t]), key, fmt("tetra %d component,point", t).c_str(), k, n)) return; }
static void applyD(const Field& f, const Coef& D, vector<L>& w, vector<L>& tol) {
    w.assign(size_t(D.R)*f.q*f.F.f(), 0); tol = f.tol; vector<L> Dv;
    for (int t = 0; t < f.F.f(); ++t) { L md = 0, mv = 0; const Tet& T = f.F.ts[t];
        for (int n = 0; n < f.q; ++n) { L x[3]; if (f.F.dom == PNTX) for (int k = 0; k < 3; ++k) x[k] = f.F.X[3*n+k]; else { L l[4]; for (int i = 0; i < 4; ++i) l[i] = f.F.XYL[4*n+i]; T.point(l, x); }
            D.eval(x, t, Dv); md = std::max(md, orc::maxabs(Dv));
            for (int i = 0; i < D.R; ++i) for (int j = 0; j < D.C; ++j) { L v = f.val[j + size_t(f.D)*(n + size_t(f.q)*t)]; mv = std::max(mv, fabsl(v)); w[i + size_t(D.R)*(n + size_t(f.q)*t)] += Dv[i+size_t(D.R)*j]*v; } }
        L sh = std::max(L(1), T.shift/T.h); L lm = 1; for (double l : f.F.XYL) lm = std::max(lm, fabsl((L)l));
        tol[t] = D.C*(f.tol[t]*std::max(md, L(1)) + mv*std::max(md, L(1))*1e-14L*(1+sh)*(1+D.deg)*T.kappa*lm*lm) + 1e-300L; } }
static int staticOk(const Field& f, size_t Usz, size_t Rsz, int fus) { return f.q <= 24 && f.F.f() <= fus && Usz <= size_t(9*24*30*fus) && Rsz <= size_t(60*24*fus); }
template<int op, class T> static void ctField(Mon& m, Rng& r) {
    typedef Operator<op, T> Op; SP s = lib::M<T>::get(); bool cart = r.coin(1, 3); Field f = randField(r, *s, op, cart); std::string d = s->str() + "." + orc::opName(op); int R = f.D, nt = f.F.f(), q = f.q;
    m.distinct("ct" + d + fmt("%d/%d/%d", cart, nt, q)); m.sample(d); Batch B(f.F.ts); auto tt = tetra(f.F.ts[0]); vector<double> XYL = f.F.XYL; ArrayView<> xl(XYL.data(), XYL.size()); ArrayView<const double> X(f.F.X.data(), f.F.X.size());
    DenseMatrix<> dofs(f.dofs.data(), f.nf, nt); ArrayView<> dv(f.dofs.data(), f.dofs.size()); size_t Us = 0, Rs = 0, Is = 0; Op::template memoryRequirements<double, int>(nt, q, Us, Rs, Is);
    DenseMatrix<const double> Y[4]; for (int v = 0; v < 4; ++v) Y[v].Init(B.c[v].data(), 3, nt, size_t(3*nt)); const double* Z[4]; for (int v = 0; v < 4; ++v) Z[v] = B.c[v].data();
    size_t N = size_t(R)*q*nt; auto& P = pool();
    auto go = [&](const char* nm, bool shape, const std::function<void(Res&)>& fn) { std::string key = std::string("ct:") + (cart ? "X:" : "L:") + nm; m.key(key); m.eval(); m.desc("%s %s %s %s", key.c_str(), d.c_str(), fmt("nt=%d q=%d", nt, q).c_str(), f.F.ts[0].str().c_str()); Res o(N); fn(o); cmp(m, key, f, R, f.val, f.tol, o, shape); m.obs(key); };
    if (!cart) {
        if (staticOk(f, Us, Rs, 1)) { go("static", true, [&](Res& o) { fem3DapplyL<Op>(B.T, xl, dofs, o.A); }); go("XY-static", true, [&](Res& o) { fem3DapplyL<Op>(Y[0], Y[1], Y[2], Y[3], xl, dofs, o.A); }); }
        if (staticOk(f, Us, Rs, 4)) go("static4", true, [&](Res& o) { fem3DapplyL<Op, 4>(B.T, xl, dofs, o.A); });
        go("planned", true, [&](Res& o) { PMem mem(fem3DapplyL_memory_requirements<Op>(q, nt)); fem3DapplyL<Op>(B.T, xl, dofs, o.A, mem.pm); });
        go("XY-planned", true, [&](Res& o) { PMem mem(fem3DapplyL_memory_requirements<Op>(q, nt)); fem3DapplyL<Op>(Y[0], Y[1], Y[2], Y[3], xl, dofs, o.A, mem.pm); });
        go("pool", true, [&](Res& o) { fem3DapplyL<Op>(B.T, xl, dofs, o.A, P); });
    } else {
        if (staticOk(f, Us, Rs, 1)) { go("static", false, [&](Res& o) { fem3DapplyX<Op>(tt, X, dv, ArrayView<>(o.d.get(), N)); }); go("XY-static", false, [&](Res& o) { fem3DapplyX<Op>(Z[0], Z[1], Z[2], Z[3], X, dv, ArrayView<>(o.d.get(), N)); });
            if (q == 1) go("XY-point", false, [&](Res& o) { ArrayView<> w(o.d.get(), N); fem3DapplyX<Op>(Z[0], Z[1], Z[2], Z[3], X.data, dv, w); }); }
        go("planned", false, [&](Res& o) { PMem mem(fem3DapplyX_memory_requirements<Op>(q, 1)); fem3DapplyX<Op>(tt, X, dv, ArrayView<>(o.d.get(), N), mem.pm); });
        go("XY-planned", false, [&](Res& o) { PMem mem(fem3DapplyX_memory_requirements<Op>(q, 1)); fem3DapplyX<Op>(Z[0], Z[1], Z[2], Z[3], X, dv, ArrayView<>(o.d.get(), N), mem.pm); });
        go("pool", false, [&](Res& o) { ArrayView<> w(o.d.get(), N); fem3DapplyX<Op>(tt, X, dv, w, P); });
    }
    ApplyOpFromTemplate<(OperatorType)op, T> A2; m.eval(); m.key("wrap"); Res o(N); if (cart) fem3DapplyX(tt, X, dofs, A2, o.A, P); else fem3DapplyL(B.T, xl, dofs, A2, o.A, P); cmp(m, "wrap", f, R, f.val, f.tol, o);
}
template<class Tr> static void withD(Mon& m, Rng& r, const Field& f, const ApplyOpBase& op, const std::string& d) {
    bool cart = f.F.dom == PNTX; int C = f.D, q = f.q, nt = f.F.f(), R = r.coin() ? C : r.range(1, 6), st = R == C || C == 1 ? r.range(TENSOR_NULL, TENSOR_GENERAL) : (int)TENSOR_GENERAL; if (R != C && st == TENSOR_SYMMETRIC) st = TENSOR_GENERAL;
    const int S = Tr::TensorSparsity::value; if (S > 0) { st = S; if (S < TENSOR_GENERAL) R = C; } bool cst = Tr::IsConstant::value;
    Coef D = Coef::rand(r, R, C, st, cst ? 0 : r.range(0, 2), cst ? false : r.coin(), f.F.ts); int ud = 0; Log log; Fun fn{&D, &log, &ud, S > 0 ? S : S == PerTetra ? -1 : cst || S == PerSelection ? st : st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0};
    vector<L> w, tol; applyD(f, D, w, tol); Batch B(f.F.ts); auto tt = tetra(f.F.ts[0]); vector<double> XYL = f.F.XYL, dd = f.dofs; ArrayView<> xl(XYL.data(), XYL.size()); ArrayView<const double> X(f.F.X.data(), f.F.X.size()); DenseMatrix<> dofs(dd.data(), f.nf, nt);
    for (int dyn = 0; dyn < 2; ++dyn) { std::string key = std::string("D:") + (cart ? "X" : "L") + (dyn ? ":pool" : ":planned"); m.key(key); m.eval(); log = Log(); m.desc("%s %s D %dx%d kind %d nt=%d q=%d %s", key.c_str(), d.c_str(), R, C, st, nt, q, f.F.ts[0].str().c_str()); Res o(size_t(R)*q*nt);
        if (cart) { if (dyn) fem3DapplyX<Tr>(tt, X, dofs, op, R, fn, o.A, pool(), &ud); else { XMem mem(fem3DapplyX_memory_requirements<Tr>(R, op, q, 1)); fem3DapplyX<Tr>(tt, X, dofs, op, R, fn, o.A, mem.pm, &ud); } }
        else { if (dyn) fem3DapplyL<Tr>(B.T, xl, dofs, op, R, fn, o.A, pool(), &ud); else { XMem mem(fem3DapplyL_memory_requirements<Tr>(R, op, q, nt)); fem3DapplyL<Tr>(B.T, xl, dofs, op, R, fn, o.A, mem.pm, &ud); } }
        cmp(m, key, f, R, w, tol, o); checkLog(m, key, log, st != TENSOR_NULL); m.obs(key); }
}
static void rtField(Mon& m, Rng& r, SP s) {
    if (orc::unionQuality(*s) < 1e-4L) { m.obs("skipped dependent sums"); return; }
    int op = pickOp(r, *s); bool cart = r.coin(1, 3); Field f = randField(r, *s, op, cart); std::string d = s->str() + "." + orc::opName(op); int R = f.D, nt = f.F.f(), q = f.q; m.distinct(d + fmt("%d/%d/%d", cart, nt, q)); m.sample(d);
    FemSpace sp = r.coin() ? makeRaw(*s) : makeAlg(*s); auto A = sp.getOP((OperatorType)op); Batch B(f.F.ts); auto tt = tetra(f.F.ts[0]); vector<double> XYL = f.F.XYL; ArrayView<> xl(XYL.data(), XYL.size()); ArrayView<const double> X(f.F.X.data(), f.F.X.size()); DenseMatrix<> dofs(f.dofs.data(), f.nf, nt);
    for (int dyn = 0; dyn < 2; ++dyn) { std::string key = std::string("run:") + (cart ? "X" : "L") + (dyn ? ":pool" : ":planned"); m.key(key); m.eval(); m.desc("%s %s nt=%d q=%d %s", key.c_str(), d.c_str(), nt, q, f.F.ts[0].str().c_str()); Res o(size_t(R)*q*nt);
        if (cart) { if (dyn) fem3DapplyX(tt, X, dofs, A, o.A, pool()); else { XMem mem(fem3DapplyX_memory_requirements(A, q, 1)); fem3DapplyX(tt, X, dofs, A, o.A, mem.pm); } }
        else { if (dyn) fem3DapplyL(B.T, xl, dofs, A, o.A, pool()); else { XMem mem(fem3DapplyL_memory_requirements(A, q, nt)); fem3DapplyL(B.T, xl, dofs, A, o.A, mem.pm); } }
        cmp(m, key, f, R, f.val, f.tol, o); m.obs(key); }
    switch (r.range(0, 5)) { case 0: withD<DfuncTraits<PerTetra>>(m, r, f, A, d); break; case 1: withD<DfuncTraits<PerSelection>>(m, r, f, A, d); break; case 2: withD<DfuncTraits<TENSOR_GENERAL, true>>(m, r, f, A, d); break; case 3: withD<DfuncTraits<TENSOR_SCALAR>>(m, r, f, A, d); break; default: withD<DfuncTraits<>>(m, r, f, A, d); }
}
#ifndef SHARD
SECTION(units) { run_cases(m, m.cases(9*40, 9*400), [&](long c, Rng& r) { rtField(m, r, orc::unit(orc::FAMS[c%9])); }); }
SECTION(composed) { run_cases(m, m.cases(700, 8000), [&](long, Rng& r) { rtField(m, r, orc::randSpace(r, r.range(1, 3), 40)); }); }
SECTION(bary) { // points to barycentric coordinates
    run_cases(m, m.cases(300, 5000), [&](long, Rng& r) { Tet t = orc::randTet(r); int q = r.range(1, 5); vector<double> X(3*q); vector<L> want(4*q);
        for (int n = 0; n < q; ++n) { double l[4]; orc::randBary(r, l, true); L ll[4] = {l[0], l[1], l[2], l[3]}, x[3]; t.point(ll, x); for (int k = 0; k < 3; ++k) X[3*n+k] = double(x[k]); L xx[3] = {X[3*n], X[3*n+1], X[3*n+2]}; t.bary(xx, &want[4*n]); }
        vector<double> o(4*q, NAN); m.eval(); m.key("bary"); m.desc("bary q=%d %s", q, t.str().c_str()); m.distinct(fmt("bary%d", q)); getBaryCoord(t.x[0], t.x[1], t.x[2], t.x[3], ArrayView<const double>(X.data(), X.size()), ArrayView<>(o.data(), o.size()));
        L lm = 1; for (L v : want) lm = std::max(lm, fabsl(v)); L tol = 4e-14L*t.kappa*t.kappa*lm*(1 + t.shift/t.h*0.1L); for (int i = 0; i < 4*q; ++i) if (!m.close(o[i], double(want[i]), double(tol), "bary", "L", i)) return; });
}
#else
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P3> P3_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_; typedef FemFix<FEM_CR1> CR_; typedef FemFix<FEM_B2> B2_; typedef FemFix<FEM_B4> B4_;
SEC(SHARD) { run_cases(m, m.cases(6*30, 6*300), [&](long c, Rng& r) { switch (c % 6) {
#if SHARD == 0
    case 0: ctField<IDEN, P1_>(m, r); break; case 1: ctField<GRAD, P3_>(m, r); break; case 2: ctField<CURL, ND_>(m, r); break;
    case 3: ctField<IDEN, FemVec<3, FEM_P2>>(m, r); break; case 4: ctField<GRAD, FemVec<3, FEM_P1>>(m, r); break; default: ctField<DIV, FemVec<3, FEM_P2>>(m, r);
#else
    case 0: ctField<IDEN, FemCom<P1_, RT_>>(m, r); break; case 1: ctField<IDEN, FemCom<FemVec<2, FEM_P1>, P0_, ND_>>(m, r); break; case 2: ctField<GRAD, FemVecT<2, FemUnionT<P1_, B4_>>>(m, r); break;
    case 3: ctField<GRAD, FemVec<2, FEM_P3>>(m, r); break; case 4: ctField<DUDZ, FemCom<CR_, P2_>>(m, r); break; default: ctField<IDEN, FemVecT<3, FemCom<P0_, B2_>>>(m, r);
#endif
} }); }
#endif

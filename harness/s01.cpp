// S01: operator values of every space equal the values and exact derivatives of the documented basis functions.
#include "space.h"
using namespace lib;
static void check(Mon& m, const std::string& key, const std::vector<double>& U, const Want& w, const std::vector<Tet>& ts, int op, double lmax, int D, int q, int nf) {
    if (U.size() != w.v.size()) { m.fail(key + ":size", "size %zu want %zu", U.size(), w.v.size()); return; }
    for (size_t r = 0; r < ts.size(); ++r) {
        double tol = opTol(op, ts[r], lmax);
        for (size_t j = size_t(D)*q*nf*r; j < size_t(D)*q*nf*(r+1); ++j)
            if (!m.close(U[j], double(w.v[j]), tol, key, "U (flat, dof)", long(j), long(j/(size_t(D)*q)%nf))) break;
    }
}
static std::vector<double> pts(Rng& r, int q, double* lmax) {
    std::vector<double> X(4*q); *lmax = 1;
    for (int n = 0; n < q; ++n) { orc::randBary(r, &X[4*n], true); for (int i = 0; i < 4; ++i) *lmax = std::max(*lmax, std::fabs(X[4*n+i])); }
    return X;
}
static void runtimeCase(Mon& m, Rng& r, SP s, const std::string& fam) {
    FemSpace sp; bool raw = r.coin();
    L qual = s->has(Sp::Uni) ? orc::unionQuality(*s) : 1;
    m.desc("space %s", s->str().c_str());
    if (qual < 1e-9L) { m.obs("dependent sums refused"); m.check(mon::throws([&]{ sp = raw ? makeRaw(*s) : makeAlg(*s); }), "union:dependent-accepted", "sum space with linearly dependent functions was accepted"); return; }
    sp = raw ? makeRaw(*s) : makeAlg(*s);
    // operators through a nested piece of the space as well
    int f = r.pick(*new std::vector<int>{1, 1, 1, 2, 3}), q = r.range(1, 4);
    std::vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r));
    Batch T(ts); double lmax; auto X = pts(r, q, &lmax);
    std::string d = s->str();
    m.desc("space %s f=%d q=%d tet %s", d.c_str(), f, q, ts[0].str().c_str());
    m.distinct(d + fmt("/%d/%d", f, q)); m.sample(d);
    m.check((int)sp.dim() == s->dim() && (int)sp.dofMap().NumDofOnTet() == s->nf(), "run:dims:" + fam, "dim %d nf %d want %d %d", (int)sp.dim(), (int)sp.dofMap().NumDofOnTet(), s->dim(), s->nf());
    for (int op : orc::OPS) if (orc::opOk(op, s->dim())) {
        m.eval(); m.obs(std::string("run-time ") + orc::opName(op));
        std::string key = std::string("run:") + orc::opName(op) + ":" + fam; m.key(key);
        int D = orc::dimOp(op, s->dim());
        auto A = sp.getOP((OperatorType)op);
        if (!m.check((int)A.Dim() == D && (int)A.Nfa() == s->nf(), key, "Dim %d Nfa %d want %d %d", A.Dim(), A.Nfa(), D, s->nf())) continue;
        std::string err; auto U = evalOpX(A, T, X, &err);
        m.check(err.empty(), key + ":blocks", "%s", err.c_str());
        auto w = wantOp(op, *s, ts, X);
        check(m, key, U, w, ts, op, lmax, D, q, s->nf());
    }
}
static std::string famOf(const Sp& s) { return s.k == Sp::Unit ? orc::famName(s.fam) : s.k == Sp::Vec ? "vector" : s.k == Sp::Cpx ? "product" : "union"; }
#ifndef SHARD
SECTION(units) { // every family, every operator
    run_cases(m, m.cases(9*12, 9*150), [&](long c, Rng& r) { SP s = orc::unit(orc::FAMS[c%9]); runtimeCase(m, r, s, famOf(*s)); });
}
SECTION(vec3) { // every way to have a three-dimensional vector space, where div and curl exist
    run_cases(m, m.cases(160, 2500), [&](long, Rng& r) {
        SP s; int k = r.range(0, 6);
        auto sc = [&] { static const int F[7] = {orc::P0, orc::P1, orc::P2, orc::P3, orc::CR1, orc::B2, orc::B4}; return orc::unit(F[r.range(0, 6)]); };
        auto scu = [&]() -> SP { return r.coin(1, 3) ? orc::uni({sc(), sc()}) : sc(); };
        if (k == 0) s = orc::vec(3, scu());
        if (k == 1) s = orc::cpx({scu(), scu(), scu()});
        if (k == 2) s = orc::cpx({scu(), orc::vec(2, scu())});
        if (k == 3) s = orc::cpx({orc::vec(2, scu()), scu()});
        if (k == 4) s = orc::uni({orc::vec(3, scu()), orc::unit(r.coin() ? orc::RT0 : orc::ND0)});
        if (k == 5) s = orc::uni({orc::cpx({scu(), scu(), scu()}), orc::vec(3, scu())});
        if (k == 6) s = orc::vec(1, r.coin() ? orc::unit(r.coin() ? orc::RT0 : orc::ND0) : orc::cpx({scu(), orc::vec(2, scu())}));
        runtimeCase(m, r, s, "vec3-" + famOf(*s) + std::to_string(k));
    });
}
SECTION(composed) {
    run_cases(m, m.cases(220, 4000), [&](long, Rng& r) { SP s = orc::randSpace(r, r.range(1, 3)); runtimeCase(m, r, s, famOf(*s)); });
}
// default operators of the space interface (what a space without its own div, curl or derivative gets)
SECTION(defaults) {
    run_cases(m, m.cases(90, 1500), [&](long c, Rng& r) {
        SP s; for (;;) { s = c % 3 == 0 ? orc::unit(c % 2 ? orc::RT0 : orc::ND0) : c % 3 == 1 ? orc::vec(3, orc::unit(orc::FAMS[r.range(0, 3)])) : orc::cpx({orc::unit(orc::P1), orc::unit(orc::P2), orc::unit(orc::B4)}); break; }
        FemSpace sp = makeRaw(*s); auto b = sp.base();
        int f = r.range(1, 3), q = r.range(1, 4); std::vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r));
        Batch T(ts); double lmax; auto X = pts(r, q, &lmax);
        for (int op : {DIV, CURL, DUDX, DUDY, DUDZ}) { m.eval(); m.obs(std::string("default ") + orc::opName(op)); m.distinct(s->str() + orc::opName(op));
            std::string key = std::string("default:") + orc::opName(op); m.key(key); m.desc("default %s of %s f=%d q=%d", orc::opName(op), s->str().c_str(), f, q);
            int D = orc::dimOp(op, 3);
            ApplyOpCustom A(7, [&](AniMemoryX<>& mem, ArrayView<>& U) { return op == DIV ? b->BaseFemSpace::applyDIV(mem, U) : op == CURL ? b->BaseFemSpace::applyCURL(mem, U) : b->BaseFemSpace::applyDUDX(mem, U, op-DUDX); },
                [&](uint q, uint f) { return op == DIV ? b->BaseFemSpace::memDIV(q, f) : op == CURL ? b->BaseFemSpace::memCURL(q, f) : b->BaseFemSpace::memDUDX(q, f, op-DUDX); }, D, s->nf());
            std::string err; auto U = evalOpX(A, T, X, &err); m.check(err.empty(), key + ":blocks", "%s", err.c_str());
            check(m, key, U, wantOp(op, *s, ts, X), ts, op, lmax, D, q, s->nf()); }
    });
}
#endif
#ifdef SHARD
// compile-time spaces
template<int OP, class T> static void ct(Mon& m, Rng& r, const char* name) {
    typedef Operator<OP, T> O; SP s = M<T>::get();
    int f = r.range(1, 3), q = r.range(1, 4);
    std::vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r));
    Batch Tt(ts); double lmax; auto X = pts(r, q, &lmax);
    m.eval(); m.obs(std::string("compile-time ") + orc::opName(OP)); m.distinct(std::string("ct/") + name + fmt("/%d/%d/%d", OP, f, q));
    std::string key = std::string("ct:") + orc::opName(OP) + ":" + famOf(*s); m.key(key);
    m.desc("compile-time %s of %s f=%d q=%d", orc::opName(OP), s->str().c_str(), f, q);
    int D = orc::dimOp(OP, s->dim());
    if (!m.check(O::Dim::value == D && O::Nfa::value == s->nf(), key, "Dim %d Nfa %d want %d %d", O::Dim::value, O::Nfa::value, D, s->nf())) return;
    std::string err; auto U = evalOpC<O>(Tt, X, &err);
    m.check(err.empty(), key + ":blocks", "%s", err.c_str());
    check(m, key, U, wantOp(OP, *s, ts, X), ts, OP, lmax, D, q, s->nf());
}
template<class T> static void ctAll(Mon& m, Rng& r, const char* n) { ct<IDEN, T>(m, r, n); ct<GRAD, T>(m, r, n); ct<DUDX, T>(m, r, n); ct<DUDY, T>(m, r, n); ct<DUDZ, T>(m, r, n); }
template<class T> static void ctDC(Mon& m, Rng& r, const char* n) { ct<DIV, T>(m, r, n); ct<CURL, T>(m, r, n); }
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
#define U1(F) FemFix<F>
SEC(SHARD) {
    run_cases(m, m.cases(3*5, 3*80), [&](long c, Rng& r) {
        switch (c % 3) {
#if SHARD == 0
        case 0: ctAll<U1(FEM_P0)>(m, r, "P0"); ctDC<FemVec<3, FEM_P0>>(m, r, "P0^3"); break;
        case 1: ctAll<U1(FEM_ND0)>(m, r, "ND0"); ctDC<U1(FEM_ND0)>(m, r, "ND0"); break;
        case 2: ctAll<FemVecT<2, FemVec<2, FEM_P1>>>(m, r, "vt"); ctAll<FemVecT<2, FemFix<FEM_RT0>>>(m, r, "vt2"); break;
#elif SHARD == 1
        case 0: ctAll<U1(FEM_P1)>(m, r, "P1"); ctDC<FemVec<3, FEM_P1>>(m, r, "P1^3"); break;
        case 1: ctAll<U1(FEM_CR1)>(m, r, "CR1"); ctDC<FemVec<3, FEM_CR1>>(m, r, "CR1^3"); break;
        case 2: ctAll<FemCom<FemFix<FEM_P1>, FemVec<3, FEM_P2>, FemFix<FEM_RT0>>>(m, r, "com"); break;
#elif SHARD == 2
        case 0: ctAll<U1(FEM_P2)>(m, r, "P2"); ctDC<FemVec<3, FEM_P2>>(m, r, "P2^3"); break;
        case 1: ctAll<U1(FEM_B2)>(m, r, "B2"); ctDC<FemVec<3, FEM_B2>>(m, r, "B2^3"); break;
        case 2: ctAll<FemCom<FemFix<FEM_ND0>, FemCom<FemFix<FEM_P0>, FemVec<2, FEM_CR1>>>>(m, r, "com2"); ctAll<FemVecT<2, FemCom<FemFix<FEM_P1>, FemFix<FEM_P0>>>>(m, r, "vtc"); break;
#elif SHARD == 3
        case 0: ctAll<U1(FEM_P3)>(m, r, "P3"); ctDC<FemVec<3, FEM_P3>>(m, r, "P3^3"); break;
        case 1: ctAll<U1(FEM_B4)>(m, r, "B4"); ctDC<FemVec<3, FEM_B4>>(m, r, "B4^3"); break;
        case 2: ctAll<FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>(m, r, "mini"); ctAll<FemUnionT<FemVec<3, FEM_P1>, FemFix<FEM_RT0>>>(m, r, "u2"); ct<DIV, FemUnionT<FemVec<3, FEM_P1>, FemFix<FEM_RT0>>>(m, r, "u2"); ct<CURL, FemUnionT<FemVec<3, FEM_P1>, FemFix<FEM_RT0>>>(m, r, "u2"); break;
#elif SHARD == 4
        case 0: ctAll<U1(FEM_RT0)>(m, r, "RT0"); ctDC<U1(FEM_RT0)>(m, r, "RT0"); break;
        case 1: ctAll<FemVec<3, FEM_P2>>(m, r, "P2^3"); ctAll<FemVec<2, FEM_ND0>>(m, r, "ND0^2"); break;
        case 2: ctAll<FemVecT<3, FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B4>>>>(m, r, "mini3"); ctAll<FemUnionT<FemFix<FEM_P1>, FemFix<FEM_B2>, FemFix<FEM_B4>>>(m, r, "u3"); break;
#endif
        }
    });
}
#endif

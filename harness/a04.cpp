// A04: every way to declare a coefficient gives the same matrix; the coefficient is asked exactly at the physical integration points.
#include "aform.h"
using namespace af;
static const char* kindName(int k) { static const char* n[] = {"null", "scalar", "symmetric", "general"}; return n[k-1]; }
// integration points of the library in barycentric coordinates (checked by Q01)
static vector<std::array<L, 4>> libPoints(const Form& F) {
    vector<std::array<L, 4>> P; auto put = [&](const vector<int>& v, const vector<L>& l) { std::array<L, 4> a{{0, 0, 0, 0}}; for (size_t i = 0; i < v.size(); ++i) a[v[i]] = l[i]; P.push_back(a); };
    switch (F.dom) {
    case TET: { auto q = tetrahedron_quadrature_formulas(F.order); for (int i = 0; i < q.GetNumPoints(); ++i) { auto w = q.GetPointWeight<long double>(i); put(orc::allV(), {w.p[0], w.p[1], w.p[2], w.p[3]}); } break; }
    case FACE: case FACEN: { auto q = triangle_quadrature_formulas(F.order); for (int i = 0; i < q.GetNumPoints(); ++i) { auto w = q.GetPointWeight<long double>(i); put(orc::faceV(F.part), {w.p[0], w.p[1], w.p[2]}); } break; }
    case EDGE: { auto q = segment_quadrature_formulas(F.order); for (int i = 0; i < q.GetNumPoints(); ++i) { auto w = q.GetPointWeight<long double>(i); put(orc::edgeV(F.part), {w.p[0], w.p[1]}); } break; }
    case NODE: put({F.part}, {1}); break;
    case PNTL: for (size_t n = 0; 4*n < F.XYL.size(); ++n) put(orc::allV(), {F.XYL[4*n], F.XYL[4*n+1], F.XYL[4*n+2], F.XYL[4*n+3]}); break;
    default: break;
    }
    return P;
}
// every call at an integration point of the element it names; if all: every integration point of every element was asked
static void checkPoints(Mon& m, const std::string& key, const Form& F, const Log& log, bool all) {
    auto P = libPoints(F); int f = F.f();
    for (int r = 0; r < f; ++r) { const Tet& t = F.ts[r]; vector<std::array<L, 3>> X;
        if (F.dom == PNTX) for (size_t n = 0; 3*n < F.X.size(); ++n) X.push_back({{F.X[3*n], F.X[3*n+1], F.X[3*n+2]}}); else for (auto& p : P) { L x[3]; t.point(p.data(), x); X.push_back({{x[0], x[1], x[2]}}); }
        vector<char> hit(X.size(), 0); L tol = 1e-13L*(t.h + t.shift); if (F.dom == PNTL || F.dom == PNTX) { L lm = 1; for (double l : F.XYL) lm = std::max(lm, fabsl((L)l)); for (double x : F.X) lm = std::max(lm, fabsl((L)x)/(t.h+t.shift)); tol *= lm; }
        for (auto& c : log.at) if (c.it == r) { bool ok = false; for (size_t i = 0; i < X.size(); ++i) { L d = 0; for (int k = 0; k < 3; ++k) d = std::max(d, fabsl(X[i][k]-c.x[k])); if (d <= tol) { ok = true; hit[i] = 1; } }
            if (!m.check(ok, key + ":points", "coefficient asked at (%.17g,%.17g,%.17g) of element %d, which is not an integration point", c.x[0], c.x[1], c.x[2], r)) return; }
        if (all) for (size_t i = 0; i < X.size(); ++i) if (!m.check(hit[i], key + ":points", "coefficient never asked at integration point %zu (%.17Lg,%.17Lg,%.17Lg) of element %d", i, X[i][0], X[i][1], X[i][2], r)) return;
        m.obs("points matched", X.size());
    }
}
template<class Tr> struct Kind { static const int S = Tr::TensorSparsity::value; static const bool C = Tr::IsConstant::value, FUS = Tr::AggregateType::value == FusiveTensor;
    static std::string name() { return std::string(C ? "const-" : "") + (FUS ? "fused" : S > 0 ? kindName(S) : S == PerPoint ? "perpoint" : S == PerTetra ? "pertetra" : "perselection"); } };
// structure of data valid under the declaration
template<class Tr> static int pickStruct(Rng& r, bool square) {
    const int S = Kind<Tr>::S; if (S == TENSOR_NULL || S == TENSOR_SCALAR || S == TENSOR_SYMMETRIC) return S;
    return square ? r.range(TENSOR_NULL, TENSOR_GENERAL) : TENSOR_GENERAL; }
template<class Tr> static Fun makeFun(Rng& r, const Coef* c, Log* log, void* ud) {
    Fun f{c, log, ud}; const int S = Kind<Tr>::S;
    if (S > 0) f.report = S == TENSOR_SYMMETRIC ? (r.coin() ? TENSOR_SYMMETRIC : TENSOR_GENERAL) : S;
    else if (S == PerSelection || Kind<Tr>::C || Kind<Tr>::FUS) { f.report = 0; log->calls = r.range(0, 50); f.report = f.kind(0); log->calls = 0; }
    else f.report = S == PerTetra ? -1 : 0;
    return f; }
template<bool FUS> struct Call1 { template<class Tr, class... A> static void go(const Fun& f, const Form& F, const ApplyOpBase& U, const ApplyOpBase& V, A&&... a) { runX<Tr>(F, U, V, f, std::forward<A>(a)...); }
    template<class OA, class OB, class Tr> static void ct(int i, const Form& F, const Fun& f, DenseMatrix<>& A, void* ud) { runC<OA, OB, Tr>(i, F, f, A, ud); } };
template<> struct Call1<true> { template<class Tr, class... A> static void go(const Fun& f, const Form& F, const ApplyOpBase& U, const ApplyOpBase& V, A&&... a) { runX<Tr>(F, U, V, FusFun{f}, std::forward<A>(a)...); }
    template<class OA, class OB, class Tr> static void ct(int i, const Form& F, const Fun& f, DenseMatrix<>& A, void* ud) { runC<OA, OB, Tr>(i, F, FusFun{f}, A, ud); } };
static Dom anyDom(Rng& r) { static const Dom d[] = {TET, TET, FACE, FACEN, EDGE, NODE, PNTL, PNTX}; return d[r.range(0, 7)]; }
template<class Tr> static void logs(Mon& m, const std::string& key, const Form& F, const Coef& D, const Log& log) {
    bool need = D.st != TENSOR_NULL && Kind<Tr>::S != TENSOR_NULL; checkLog(m, key, log, need);
    if (!Kind<Tr>::C) checkPoints(m, key, F, log, need && !(Kind<Tr>::S == TENSOR_NULL)); }
template<class Tr> static void kindCase(Mon& m, Rng& r) {
    Dom dom = anyDom(r); const int S = Kind<Tr>::S; bool needSq = S == TENSOR_NULL || S == TENSOR_SCALAR || S == TENSOR_SYMMETRIC || r.coin(); bool rhs = needSq && S != TENSOR_SYMMETRIC && r.coin(1, 4);
    SP sa, sb; int oa = 0, ob = 0, da = 0, db = 0, R = 0; bool ok = false;
    for (int t = 0; t < 300 && !ok; ++t) { sa = rhs ? orc::unit(orc::P0) : orc::randSpace(r, r.range(0, 2), 30); sb = orc::randSpace(r, r.range(0, 2), 30); if (orc::unionQuality(*sa) < 1e-4L || orc::unionQuality(*sb) < 1e-4L) continue;
        oa = rhs ? (int)orc::IDEN : pickOp(r, *sa); ob = pickOp(r, *sb); da = orc::dimOp(oa, sa->dim()); db = orc::dimOp(ob, sb->dim()); R = db*(dom == FACEN ? 3 : 1); ok = !needSq || R == da || rhs; }
    if (!ok) { m.obs("no compatible pair found"); return; }
    bool square = R == da || rhs; int st = pickStruct<Tr>(r, square); if (rhs && R != da && st == TENSOR_SYMMETRIC) st = TENSOR_SCALAR;
    int base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb), deg = Kind<Tr>::C || base > 12 ? 0 : r.range(0, 2);
    Form F = randForm(r, dom, std::max(0, base) + deg, 3);
    Coef D = Coef::rand(r, R, da, st, deg, Kind<Tr>::C ? false : r.coin(), F.ts);
    int ud = 0; Log log; Fun fn = makeFun<Tr>(r, &D, &log, &ud);
    std::string nm = Kind<Tr>::name(); m.distinct(nm + kindName(st) + domName(dom) + orc::opName(oa) + orc::opName(ob) + sa->str() + sb->str()); m.sample(nm + " " + kindName(st) + " " + sa->str() + " x " + sb->str());
    FemSpace spa = makeRaw(*sa), spb = makeRaw(*sb); auto A1 = spa.getOP((OperatorType)oa), B1 = spb.getOP((OperatorType)ob);
    Model M = model(F, *sa, oa, *sb, ob, D);
    for (int dyn = 0; dyn < 2; ++dyn) { m.eval(); log = Log(); log.rec = true; std::string key = "run:" + nm + ":" + domName(dom); m.key(key);
        m.desc("declared %s, data %s reported %d: %s(%s) x %s(%s) %s", nm.c_str(), kindName(st), fn.report, orc::opName(oa), sa->str().c_str(), orc::opName(ob), sb->str().c_str(), F.str().c_str());
        Out o(M.nfb, M.nfa, F.f()); Call1<Kind<Tr>::FUS>::template go<Tr>(fn, F, A1, B1, o.A, &ud, bool(dyn));
        compare(m, key, M, F, o.A); logs<Tr>(m, key, F, D, log); m.obs("declared " + nm); m.obs(std::string("data ") + kindName(st)); }
}
template<int oa, class TA, int ob, class TB, class Tr> static void kindCt(Mon& m, Rng& r) {
    typedef Operator<oa, TA> OA; typedef Operator<ob, TB> OB; SP sa = lib::M<TA>::get(), sb = lib::M<TB>::get(); Dom dom; int da = orc::dimOp(oa, sa->dim()), db = orc::dimOp(ob, sb->dim()), R = 0; const int S = Kind<Tr>::S;
    bool needSq = S == TENSOR_NULL || S == TENSOR_SCALAR || S == TENSOR_SYMMETRIC; int tr = 0; do { dom = anyDom(r); R = db*(dom == FACEN ? 3 : 1); } while (needSq && R != da && !(sa->nf() == 1 && da == 1 && S != TENSOR_SYMMETRIC) && ++tr < 100); if (tr == 100) return;
    bool rhs = R != da && sa->nf() == 1 && da == 1; int st = pickStruct<Tr>(r, R == da || rhs); if (rhs && st == TENSOR_SYMMETRIC) st = TENSOR_SCALAR;
    int base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb), deg = Kind<Tr>::C ? 0 : r.range(0, 1); Form F = randForm(r, dom, std::max(0, base) + deg);
    Coef D = Coef::rand(r, R, da, st, deg, Kind<Tr>::C ? false : r.coin(), F.ts); int ud = 0; Log log; Fun fn = makeFun<Tr>(r, &D, &log, &ud); Model M = model(F, *sa, oa, *sb, ob, D); std::string nm = Kind<Tr>::name();
    m.distinct("ct" + nm + kindName(st) + domName(dom) + orc::opName(oa) + orc::opName(ob) + sa->str() + sb->str());
    for (int i = 0; i < NCT; ++i) if (ifOk(i, F, M.nfa, M.nfb)) { m.eval(); log = Log(); log.rec = true; std::string key = "ct:" + nm + ":" + domName(dom); m.key(key);
        m.desc("%s, declared %s, data %s reported %d: %s(%s) x %s(%s) %s", ifName(i), nm.c_str(), kindName(st), fn.report, orc::opName(oa), sa->str().c_str(), orc::opName(ob), sb->str().c_str(), F.str().c_str());
        Out o(M.nfb, M.nfa, F.f()); Call1<Kind<Tr>::FUS>::template ct<OA, OB, Tr>(i, F, fn, o.A, &ud); compare(m, key, M, F, o.A); logs<Tr>(m, key, F, D, log); m.obs("compile-time declared " + nm); }
}
// identity-like coefficients between operators of different dimensions are refused
template<class Tr> static void refuse(Mon& m, Rng& r) {
    const int S = Kind<Tr>::S; if (S == TENSOR_GENERAL || S == TENSOR_SYMMETRIC) return;
    Dom dom = anyDom(r); SP sa, sb; int oa = 0, ob = 0, R = 1, da = 1;
    for (int t = 0; ; ++t) { if (t == 300) return; sa = orc::randSpace(r, r.range(0, 2), 20); sb = orc::randSpace(r, r.range(0, 2), 20); if (orc::unionQuality(*sa) < 1e-4L || orc::unionQuality(*sb) < 1e-4L) continue;
        oa = pickOp(r, *sa), ob = pickOp(r, *sb); da = orc::dimOp(oa, sa->dim()), R = orc::dimOp(ob, sb->dim())*(dom == FACEN ? 3 : 1); if (R != da && !(da == 1 && sa->nf() == 1)) break; }
    Form F = randForm(r, dom, 1, 2); Coef D = Coef::rand(r, R, da, TENSOR_GENERAL, 0, false, F.ts); int ud = 0; Log log; Fun fn{&D, &log, &ud};
    fn.report = S > 0 ? S : r.coin() ? TENSOR_NULL : TENSOR_SCALAR; m.eval(); std::string key = "refuse:" + Kind<Tr>::name() + ":" + domName(dom); m.key(key);
    m.desc("declared %s, reported %s between dimensions %d and %d %s", Kind<Tr>::name().c_str(), kindName(fn.report), da, R, domName(dom)); m.distinct(key + fmt("%d/%d/%d", da, R, fn.report));
    FemSpace spa = makeRaw(*sa), spb = makeRaw(*sb); auto A1 = spa.getOP((OperatorType)oa), B1 = spb.getOP((OperatorType)ob); Out o(sb->nf(), sa->nf(), F.f());
    m.check(mon::throws([&]{ Call1<Kind<Tr>::FUS>::template go<Tr>(fn, F, A1, B1, o.A, &ud, r.coin()); }), key, "accepted"); m.obs("mismatched identity refused");
}
#ifdef SHARD
typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_;
#if SHARD == 0
typedef DfuncTraits<PerPoint, false> T0; typedef DfuncTraits<PerPoint, true> T1; typedef DfuncTraits<PerTetra, false> T2;
typedef DfuncTraits<PerTetra, true> CT;
#elif SHARD == 1
typedef DfuncTraits<PerSelection, false> T0; typedef DfuncTraits<PerSelection, true> T1; typedef DfuncTraits<PerTetra, true> T2;
typedef DfuncTraits<PerSelection, false> CT;
#elif SHARD == 2
typedef DfuncTraits<TENSOR_NULL, false> T0; typedef DfuncTraits<TENSOR_NULL, true> T1; typedef DfuncTraits<TENSOR_SCALAR, false> T2;
typedef DfuncTraits<TENSOR_NULL, true> CT;
#elif SHARD == 3
typedef DfuncTraits<TENSOR_SCALAR, true> T0; typedef DfuncTraits<TENSOR_SYMMETRIC, false> T1; typedef DfuncTraits<TENSOR_SYMMETRIC, true> T2;
typedef DfuncTraits<TENSOR_SCALAR, true> CT;
#elif SHARD == 4
typedef DfuncTraits<TENSOR_GENERAL, false> T0; typedef DfuncTraits<TENSOR_GENERAL, true> T1; typedef DfuncTraitsFusive<> T2;
typedef DfuncTraitsFusive<> CT;
#endif
#define SEC2(a) SECTION(run##a)
#define SEC(a) SEC2(a)
SEC(SHARD) { run_cases(m, m.cases(3*90, 3*1200), [&](long c, Rng& r) { switch (c % 3) { case 0: kindCase<T0>(m, r); break; case 1: kindCase<T1>(m, r); break; default: kindCase<T2>(m, r); } }); }
#define SEC3(a) SECTION(refuse##a)
#define SECR(a) SEC3(a)
SECR(SHARD) { run_cases(m, m.cases(3*12, 3*100), [&](long c, Rng& r) { switch (c % 3) { case 0: refuse<T0>(m, r); break; case 1: refuse<T1>(m, r); break; default: refuse<T2>(m, r); } }); }
#define SEC4(a) SECTION(compiletime##a)
#define SECC(a) SEC4(a)
SECC(SHARD) { run_cases(m, m.cases(3*20, 3*300), [&](long c, Rng& r) { switch (c % 3) { case 0: kindCt<GRAD, P2_, IDEN, RT_, CT>(m, r); break; case 1: kindCt<GRAD, FemVec<3, FEM_P1>, GRAD, FemVec<3, FEM_P1>, CT>(m, r); break; default: kindCt<IDEN, P0_, IDEN, FemCom<ND_, P1_>, CT>(m, r); } }); }
#endif

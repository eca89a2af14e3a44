// A05: results depend on the arguments only: batch splits, stale buffers, call history, exact placement of the output, untouched inputs.
#include "aform.h"
using namespace af;
static const double POIS[] = {NAN, 0.0, 1e300, -7.25, -INFINITY, 1.0};
__attribute__((noinline)) static void dirtyStack(double v) { volatile double a[150000]; for (int i = 0; i < 150000; ++i) a[i] = v; }
static void dirtyPool(Rng& r, double v) { auto p = pool().alloc(size_t(r.range(1, 60000)), size_t(r.range(1, 500)), size_t(r.range(1, 60)));
    for (size_t k = 0; k < p.getPlainMemoryX().dSize; ++k) p.getPlainMemoryX().ddata[k] = v; for (size_t k = 0; k < p.getPlainMemoryX().iSize; ++k) p.getPlainMemoryX().idata[k] = int(0x7fed0000) + int(k); for (size_t k = 0; k < p.getPlainMemoryX().mSize; ++k) p.getPlainMemoryX().mdata[k].Init((double*)(uintptr_t)0x10, 777, 999, 5); }
struct Buf { std::vector<double> d; DenseMatrix<> A; size_t need; double sent; Buf(size_t need, size_t extra, double p) : d(need+extra, p), need(need), sent(p) { A.Init(d.data(), 0, 0, d.size()); }
    bool tailOk() const { for (size_t i = need; i < d.size(); ++i) if (memcmp(&d[i], &sent, 8)) return false; return true; } };
struct Prob { SP sa, sb; int oa, ob, tr, rep; Form F; Coef D; Model M; std::shared_ptr<FemSpace> spa, spb; ApplyOpFromSpaceView A, B; std::string str; };
static bool mk(Mon& m, Rng& r, Prob& p, int maxf) {
    p.sa = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 2), 24); p.sb = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 2), 24);
    if (r.coin(1, 4)) p.sb = p.sa;
    if (orc::unionQuality(*p.sa) < 1e-4L || orc::unionQuality(*p.sb) < 1e-4L) { m.obs("skipped dependent sums"); return false; }
    Dom dom = Dom(r.range(TET, PNTX)); p.oa = pickOp(r, *p.sa); p.ob = pickOp(r, *p.sb); bool match = dom != FACEN && r.coin(1, 3); if (match) matchedPair(r, p.sa, p.sb, p.oa, p.ob);
    int da = orc::dimOp(p.oa, p.sa->dim()), db = orc::dimOp(p.ob, p.sb->dim()), R = db*(dom == FACEN ? 3 : 1), C = da, st = match ? r.range(TENSOR_NULL, TENSOR_GENERAL) : tensorStruct(r, R, C), base = orc::opOrder(p.oa, *p.sa) + orc::opOrder(p.ob, *p.sb), deg = base > 8 ? 0 : r.range(0, 1);
    Form F = randForm(r, dom, base + deg, 1); F.order = std::min(F.order, base + deg + 1); if (dom != PNTX) { int f = r.range(1, maxf); while (F.f() < f) F.ts.push_back(orc::randTet(r)); }
    p.F = F; p.tr = r.range(0, 2); p.D = Coef::rand(r, R, C, st, deg, false, p.F.ts); p.rep = st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : p.tr == 0 ? 0 : p.tr == 1 ? -1 : st;
    p.M = model(p.F, *p.sa, p.oa, *p.sb, p.ob, p.D); p.spa = std::make_shared<FemSpace>(makeRaw(*p.sa)); p.spb = std::make_shared<FemSpace>(makeRaw(*p.sb)); p.A = p.spa->getOP((OperatorType)p.oa); p.B = p.spb->getOP((OperatorType)p.ob);
    p.str = fmt("%s(%s) x %s(%s) D kind %d traits %d, %s", orc::opName(p.oa), p.sa->str().c_str(), orc::opName(p.ob), p.sb->str().c_str(), st, p.tr, p.F.str().c_str()); m.distinct(p.sa->str() + p.sb->str() + fmt("%d%d%d/%d", p.oa, p.ob, dom, F.f())); m.sample(p.str); return true; }
static void go(const Prob& p, const Form& F, const Coef& D, DenseMatrix<>& A, bool dyn, double poison) {
    int ud = 0; Log log; Fun fn{&D, &log, &ud, p.rep};
    if (p.tr == 0) runX<DfuncTraits<>>(F, p.A, p.B, fn, A, &ud, dyn, poison); else if (p.tr == 1) runX<DfuncTraits<PerTetra>>(F, p.A, p.B, fn, A, &ud, dyn, poison); else runX<DfuncTraits<PerSelection>>(F, p.A, p.B, fn, A, &ud, dyn, poison); }
// part [b, e) of the whole batch
static bool same(Mon& m, const std::string& key, const Prob& p, const Buf& o, int b, int e) {
    size_t n = size_t(p.M.nfa)*p.M.nfb; for (int r = b; r < e; ++r) for (size_t i = 0; i < n; ++i) if (!m.close(o.d[i + n*(r-b)], double(p.M.A[i + n*r]), double(p.M.tol[r]), key, fmt("tetra %d entry", r).c_str(), long(i % p.M.nfb), long(i / p.M.nfb))) return false;
    return m.check(o.tailOk(), key + ":outside", "memory of the output beyond the matrix was changed"); }
#ifndef SHARD
SECTION(split) { run_cases(m, m.cases(260, 6000), [&](long, Rng& r) { Prob p; if (!mk(m, r, p, 6)) return; int f = p.F.f(); size_t n = size_t(p.M.nfa)*p.M.nfb;
    for (int k = 0; k < 3; ++k) { bool dyn = r.coin(); double po = POIS[r.range(0, 5)]; int b = 0; m.key("split"); std::string sp;
        while (b < f) { int e = k == 0 ? f : k == 1 ? b+1 : std::min(f, b + r.range(1, 3)); sp += fmt(" %d", e-b); m.desc("split%s %s", sp.c_str(), p.str.c_str()); Form G = p.F; G.ts.assign(p.F.ts.begin()+b, p.F.ts.begin()+e); Coef D = p.D; D.ts = &G.ts;
            if (dyn && r.coin()) dirtyPool(r, po); Buf o(n*(e-b), size_t(r.coin() ? 0 : r.range(1, 50)), POIS[r.range(0, 5)]); go(p, G, D, o.A, dyn, po); m.eval(); m.obs(k == 0 ? "whole batches" : "parts of batches"); if (!same(m, k == 0 ? "batch" : "split", p, o, b, e)) return; b = e; } } }); }
SECTION(stale) { run_cases(m, m.cases(160, 4000), [&](long, Rng& r) { Prob p; if (!mk(m, r, p, 3)) return; size_t n = size_t(p.M.nfa)*p.M.nfb*p.F.f();
    for (int k = 0; k < 4; ++k) { double po = POIS[k]; bool dyn = r.coin(); if (dyn) dirtyPool(r, po); dirtyStack(po); m.key("stale"); m.desc("stale %g %s", po, p.str.c_str()); Buf o(n, r.range(0, 20), POIS[(k+3)%6]); go(p, p.F, p.D, o.A, dyn, po); m.eval(); m.obs("stale patterns"); if (!same(m, "stale", p, o, 0, p.F.f())) return; } }); }
SECTION(history) { run_cases(m, m.cases(50, 1200), [&](long, Rng& r) { std::vector<std::unique_ptr<Prob>> v; while (v.size() < 4) { std::unique_ptr<Prob> p(new Prob); if (mk(m, r, *p, 4)) { p->D.ts = &p->F.ts; v.push_back(std::move(p)); } }
    DynMem<> fresh; std::swap(pool(), fresh); Buf big(1000000, 0, NAN); std::string h; // one output buffer and one pool for the whole history, contents left as they are
    for (int k = 0; k < 12; ++k) { int i = r.range(0, 3); Prob& p = *v[i]; bool dyn = !r.coin(1, 4); h += fmt(" %d%s", i, dyn ? "p" : "m"); m.key("history"); m.desc("history%s: %s", h.c_str(), p.str.c_str()); big.need = size_t(p.M.nfa)*p.M.nfb*p.F.f(); if (big.need > big.d.size()) continue;
        if (r.coin(1, 3)) pool().defragment(); big.A.Init(big.d.data(), r.range(0, 9), r.range(0, 9), big.d.size()); go(p, p.F, p.D, big.A, dyn, NAN); m.eval(); m.obs("calls in histories");
        m.check((int)big.A.nRow == p.M.nfb && (int)big.A.nCol == p.M.nfa*p.F.f(), "history:shape", "%zux%zu", (size_t)big.A.nRow, (size_t)big.A.nCol); size_t n = size_t(p.M.nfa)*p.M.nfb; for (int q = 0; q < p.F.f(); ++q) for (size_t j = 0; j < n; ++j) if (!m.close(big.d[j + n*q], double(p.M.A[j + n*q]), double(p.M.tol[q]), "history", "entry", long(j), q)) return; } }); }
SECTION(field) { run_cases(m, m.cases(200, 5000), [&](long, Rng& r) { // field evaluation: batch, parts, stale memory
    SP s = r.coin() ? orc::unit(orc::FAMS[r.range(0, 8)]) : orc::randSpace(r, r.range(1, 2), 24); if (orc::unionQuality(*s) < 1e-4L) return; int op = pickOp(r, *s), nf = s->nf(), D = orc::dimOp(op, s->dim()), f = r.range(1, 6), q = r.range(1, 5); FemSpace sp = makeRaw(*s); auto A = sp.getOP((OperatorType)op);
    vector<Tet> ts; for (int i = 0; i < f; ++i) ts.push_back(orc::randTet(r)); vector<double> XYL; for (int n = 0; n < q; ++n) { double l[4]; orc::randBary(r, l, true); XYL.insert(XYL.end(), l, l+4); } vector<double> dofs(size_t(nf)*f); for (auto& v : dofs) v = r.sym();
    auto run = [&](int b, int e, bool dyn, double po, Buf& o) { vector<Tet> g(ts.begin()+b, ts.begin()+e); Batch B(g); vector<double> xl = XYL, dd(dofs.begin()+size_t(nf)*b, dofs.begin()+size_t(nf)*e), xl0 = xl, dd0 = dd; DenseMatrix<> dm(dd.data(), nf, e-b); if (dyn) { dirtyPool(r, po); fem3DapplyL(B.T, ArrayView<>(xl.data(), xl.size()), dm, A, o.A, pool()); } else { XMem mem(fem3DapplyL_memory_requirements(A, q, e-b), po); fem3DapplyL(B.T, ArrayView<>(xl.data(), xl.size()), dm, A, o.A, mem.pm); } m.check(xl == xl0 && dd == dd0, "field:inputs", "the points or the coefficients of the field were changed"); m.eval(); };
    std::string d = s->str() + "." + orc::opName(op); m.key("field"); m.desc("field %s f=%d q=%d %s", d.c_str(), f, q, ts[0].str().c_str()); m.distinct("field" + d + fmt("%d/%d", f, q)); size_t n = size_t(D)*q; Buf w(n*f, 7, NAN); run(0, f, r.coin(), NAN, w); m.check(w.tailOk(), "field:outside", "memory beyond the result was changed");
    for (int b = 0; b < f; ) { int e = std::min(f, b + r.range(1, 2)); Buf o(n*(e-b), 5, POIS[r.range(0, 5)]); run(b, e, r.coin(), POIS[r.range(0, 5)], o); m.check(o.tailOk(), "field:outside", "memory beyond the result was changed");
        for (int t = b; t < e; ++t) { L tol = 2*nf*lib::opTol(op, ts[t], 3); for (size_t i = 0; i < n; ++i) if (!m.close(o.d[i + n*(t-b)], w.d[i + n*t], double(tol), "field", "value", long(i), t)) return; } m.obs("parts of field evaluations"); b = e; } }); }
#else
#define SEC2(a) SECTION(compiletime##a)
#define SEC(a) SEC2(a)
template<int oa, class TA, int ob, class TB, class Tr = DfuncTraits<>> static void ct(Mon& m, Rng& r) {
    typedef Operator<oa, TA> OA; typedef Operator<ob, TB> OB; SP sa = lib::M<TA>::get(), sb = lib::M<TB>::get(); Dom dom = Dom(r.range(TET, SHARD ? EDGE : FACEN)); int R = orc::dimOp(ob, sb->dim())*(dom == FACEN ? 3 : 1), C = orc::dimOp(oa, sa->dim()), st = tensorStruct(r, R, C), base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb);
    Form F = randForm(r, dom, base + 1, 3); Coef D = Coef::rand(r, R, C, st, r.range(0, 1), false, F.ts); Model M = model(F, *sa, oa, *sb, ob, D); std::string d = sa->str() + "." + orc::opName(oa) + " x " + sb->str() + "." + orc::opName(ob); m.distinct("ct" + d + domName(dom) + fmt("%d/%d", F.part, F.f()));
    for (int i = 0; i < NCT; ++i) if (ifOk(i, F, M.nfa, M.nfb)) for (int k = 0; k < 2; ++k) { double po = POIS[r.range(0, 5)]; dirtyStack(po); if (i == DYN) dirtyPool(r, po); int ud = 0; Log log; Fun fn{&D, &log, &ud, st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0}; std::string key = std::string("ct:") + ifName(i); m.key(key); m.desc("%s stale %g %s %s", ifName(i), po, d.c_str(), F.str().c_str());
        bool single = i != STAT3 && (k == 1 || F.f() == 1); Form G = F; if (single && F.f() > 1) G.ts.assign(1, F.ts[0]); Coef E = D; E.ts = &G.ts; fn.c = &E; size_t n = size_t(M.nfa)*M.nfb; Buf o(n*G.f(), i == STAT3 || i == STAT1 || i == XYSTAT ? n*3 : r.range(0, 9), POIS[r.range(0, 5)]); runC<OA, OB, Tr>(i, G, fn, o.A, &ud, po); m.eval(); m.obs(std::string("compile-time ") + ifName(i));
        for (int q = 0; q < G.f(); ++q) for (size_t j = 0; j < n; ++j) if (!m.close(o.d[j + n*q], double(M.A[j + n*q]), double(M.tol[q]), key, "entry", long(j), q)) return; m.check(o.tailOk(), key + ":outside", "memory of the output beyond the matrix was changed"); } }
typedef FemFix<FEM_P1> P1_; typedef FemFix<FEM_P2> P2_; typedef FemFix<FEM_P0> P0_; typedef FemFix<FEM_RT0> RT_; typedef FemFix<FEM_ND0> ND_;
SEC(SHARD) { run_cases(m, m.cases(4*25, 4*400), [&](long c, Rng& r) { switch (c % 4) {
#if SHARD == 0
    case 0: ct<GRAD, P2_, GRAD, P2_>(m, r); break; case 1: ct<IDEN, FemVec<3, FEM_P1>, IDEN, RT_>(m, r); break; case 2: ct<IDEN, P0_, IDEN, FemCom<P1_, FemVec<2, FEM_P2>>, DfuncTraits<PerTetra>>(m, r); break; default: ct<DIV, FemVec<3, FEM_P2>, IDEN, P1_>(m, r);
#else
    case 0: ct<IDEN, FemCom<P2_, P1_>, IDEN, FemCom<P2_, P1_>>(m, r); break; case 1: ct<CURL, ND_, IDEN, ND_, DfuncTraits<PerSelection>>(m, r); break; case 2: ct<GRAD, FemVecT<2, FemUnionT<P1_, FemFix<FEM_B4>>>, IDEN, P0_>(m, r); break; default: ct<DUDX, P2_, IDEN, FemVecT<2, FemCom<P1_, P0_>>>(m, r);
#endif
} }); }
#endif

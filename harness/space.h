// Glue between the model (oracle.h) and the library: building spaces, evaluating operators through the library.
#pragma once
#include "oracle.h"
#include "anifem++/fem/operations/operations.h"
#include "anifem++/fem/fem_space.h"
#include "anifem++/fem/spaces/spaces.h"
namespace lib {
using namespace Ani;
using orc::Sp; using orc::SP; using orc::Tet; using orc::L;
inline FemSpace makeUnit(int f) {
    switch (f) {
    case orc::P0: return FemSpace(P0Space()); case orc::P1: return FemSpace(P1Space()); case orc::P2: return FemSpace(P2Space());
    case orc::P3: return FemSpace(P3Space()); case orc::RT0: return FemSpace(RT0Space()); case orc::ND0: return FemSpace(ND0Space());
    case orc::CR1: return FemSpace(CR1Space()); case orc::B2: return FemSpace(Bubble2Space()); default: return FemSpace(BubbleSpace());
    }
}
// raw construction keeps the structure as described
inline FemSpace makeRaw(const Sp& s) {
    if (s.k == Sp::Unit) return makeUnit(s.fam);
    if (s.k == Sp::Vec) return FemSpace(VectorFemSpace(s.n, makeRaw(*s.ch[0]).base()));
    std::vector<std::shared_ptr<BaseFemSpace>> c; for (auto& q : s.ch) c.push_back(makeRaw(*q).base());
    if (s.k == Sp::Cpx) return FemSpace(ComplexFemSpace(c));
    return FemSpace(UnionFemSpace(c));
}
// construction by operators (flattens)
inline FemSpace makeAlg(const Sp& s) {
    if (s.k == Sp::Unit) return makeUnit(s.fam);
    if (s.k == Sp::Vec) return makeAlg(*s.ch[0]) ^ s.n;
    FemSpace a = makeAlg(*s.ch[0]);
    for (size_t i = 1; i < s.ch.size(); ++i) a = s.k == Sp::Cpx ? a * makeAlg(*s.ch[i]) : a + makeAlg(*s.ch[i]);
    return a;
}
// memory exactly of the announced size on separate heap blocks (so that ASan sees every overrun), poisoned
// how much less than announced to give (A06)
struct Cut { size_t d = 0, i = 0, m = 0; };
inline Cut& cut() { static Cut c; return c; }
struct XMem {
    std::unique_ptr<double[]> d; std::unique_ptr<int[]> i; std::unique_ptr<DenseMatrix<double>[]> m; PlainMemoryX<> pm;
    explicit XMem(PlainMemoryX<> req, double poison = NAN) {
        req.dSize -= std::min(req.dSize, cut().d); req.iSize -= std::min(req.iSize, cut().i); req.mSize -= std::min(req.mSize, cut().m);
        d.reset(new double[req.dSize]); i.reset(new int[req.iSize]); m.reset(new DenseMatrix<double>[req.mSize]);
        for (size_t k = 0; k < req.dSize; ++k) d[k] = poison; for (size_t k = 0; k < req.iSize; ++k) i[k] = int(0x7fedbeef);
        for (size_t k = 0; k < req.mSize; ++k) m[k].Init((double*)(uintptr_t)0x10, 12345, 54321, 777);
        pm = req; pm.ddata = d.get(); pm.idata = i.get(); pm.mdata = m.get();
    }
};
struct PMem {
    std::unique_ptr<double[]> d; std::unique_ptr<int[]> i; PlainMemory<> pm;
    explicit PMem(PlainMemory<> req, double poison = NAN) {
        req.dSize -= std::min(req.dSize, cut().d); req.iSize -= std::min(req.iSize, cut().i);
        d.reset(new double[req.dSize]); i.reset(new int[req.iSize]);
        for (size_t k = 0; k < req.dSize; ++k) d[k] = poison; for (size_t k = 0; k < req.iSize; ++k) i[k] = int(0x7fedbeef);
        pm = req; pm.ddata = d.get(); pm.idata = i.get();
    }
};
// coordinates of a batch of tetrahedra as library views
struct Batch {
    std::vector<double> c[4]; Tetras<DenseMatrix<const double>> T;
    explicit Batch(const std::vector<Tet>& t) {
        for (int v = 0; v < 4; ++v) for (auto& q : t) for (int k = 0; k < 3; ++k) c[v].push_back(q.x[v][k]);
        T = make_tetras<double>((const double*)c[0].data(), (const double*)c[1].data(), (const double*)c[2].data(), (const double*)c[3].data(), t.size());
    }
};
// a block matrix result expanded to U[k + Dim*(n + q*(i + nf*r))]
template<class BM> std::vector<double> expandBlocks(const BM& b, size_t nparts, int Dim, int nf, int q, int f, std::string* err) {
    std::vector<double> U(size_t(Dim)*nf*q*f, 0.0);
    if (b.stRow[0] != 0 || b.stCol[0] != 0 || b.stRow[nparts] != Dim || b.stCol[nparts] != nf) *err += fmt("block offsets [%d..%d]x[%d..%d] do not span %dx%d; ", (int)b.stRow[0], (int)b.stRow[nparts], (int)b.stCol[0], (int)b.stCol[nparts], Dim, nf);
    for (size_t p = 0; p < nparts; ++p) {
        int r0 = b.stRow[p], r1 = b.stRow[p+1], c0 = b.stCol[p], c1 = b.stCol[p+1];
        if (r0 < 0 || r1 < r0 || r1 > Dim || c0 < 0 || c1 < c0 || c1 > nf) { *err += fmt("block %zu has offsets rows %d..%d cols %d..%d; ", p, r0, r1, c0, c1); continue; }
        int bd = r1-r0, bn = c1-c0;
        if ((int)b.data[p].nRow != bd*q || (int)b.data[p].nCol != bn*f) { *err += fmt("block %zu is %zux%zu want %dx%d; ", p, (size_t)b.data[p].nRow, (size_t)b.data[p].nCol, bd*q, bn*f); continue; }
        for (int r = 0; r < f; ++r) for (int i = 0; i < bn; ++i) for (int n = 0; n < q; ++n) for (int k = 0; k < bd; ++k)
            U[(r0+k) + size_t(Dim)*(n + size_t(q)*((c0+i) + size_t(nf)*r))] = b.data[p].data[k + size_t(bd)*(n + size_t(q)*(i + size_t(bn)*r))];
    }
    return U;
}
inline std::vector<double> evalOpX(const ApplyOpBase& op, const Batch& T, std::vector<double> XYL, std::string* err, size_t* nparts = nullptr) {
    int q = int(XYL.size()/4), f = int(T.T.fusion);
    auto req = fem3DapplyND_memory_requirements_base<>(op, q, f, true);
    XMem mem(req);
    auto am = fem3DapplyND_init_animem_from_plain_memory(op, q, f, mem.pm, true);
    std::copy(XYL.begin(), XYL.end(), am.XYL.data);
    internalFem3DtetGeomInit(T.T, am);
    auto b = op(am, am.U);
    if (nparts) *nparts = b.nparts;
    return expandBlocks(b, b.nparts, op.Dim(), op.Nfa(), q, f, err);
}
template<class R, bool B> struct CtExpand;
template<class R> struct CtExpand<R, true> { static std::vector<double> go(const R& r, int D, int nf, int q, int f, std::string* e, size_t* np) {
    auto b = convToBendMx(DenseMatrix<>(r), D, nf); if (np) *np = 1; return expandBlocks(b, 1, D, nf, q, f, e); } };
template<class R> struct CtExpand<R, false> { static std::vector<double> go(const R& r, int D, int nf, int q, int f, std::string* e, size_t* np) {
    if (np) *np = R::Nparts::value; return expandBlocks(r, R::Nparts::value, D, nf, q, f, e); } };
template<class Op> std::vector<double> evalOpC(const Batch& T, std::vector<double> XYL, std::string* err, size_t* nparts = nullptr) {
    int q = int(XYL.size()/4), f = int(T.T.fusion);
    PMem mem(fem3DapplyL_memory_requirements<Op>(q, f));
    AniMemory<double, int> am;
    __internal_fem3DapplyL_setmem<Op, double, int>(am, q, f, Op::Nfa::value, Op::Dim::value, mem.pm);
    am.q = q; am.f = f; am.XYL.Init(XYL.data(), XYL.size());
    internalFem3DtetGeomInit(T.T, am);
    auto r = Op::template apply<double, int>(am, am.U);
    typedef decltype(r) R;
    return CtExpand<R, std::is_same<R, DenseMatrix<double>>::value>::go(r, Op::Dim::value, Op::Nfa::value, q, f, err, nparts);
}
// expected values in the same layout, with a scale per entry for tolerances
struct Want { std::vector<L> v; L scale; };
inline Want wantOp(int op, const Sp& s, const std::vector<Tet>& ts, const std::vector<double>& XYL) {
    int q = int(XYL.size()/4), nf = s.nf(), D = orc::dimOp(op, s.dim()), f = int(ts.size());
    Want w; w.v.assign(size_t(D)*q*nf*f, 0); w.scale = 0;
    for (int r = 0; r < f; ++r) for (int n = 0; n < q; ++n) {
        L l[4]; for (int i = 0; i < 4; ++i) l[i] = XYL[4*n+i];
        auto O = orc::opVals(op, s, ts[r], l);
        for (int i = 0; i < nf; ++i) for (int k = 0; k < D; ++k) w.v[k + size_t(D)*(n + size_t(q)*(i + size_t(nf)*r))] = O[size_t(i)*D+k];
    }
    return w;
}
// size of rounding errors of operator values on a tetrahedron (values scale with h^0, derivatives with 1/h; vector families too)
inline double opTol(int op, const Tet& t, double lmax = 1) {
    double k = double(t.kappa);
    double sh = double(t.shift/t.h); if (sh < 1) sh = 1;
    double base = 4e-14 * k * k * (1 + sh*0.02) * std::pow(std::max(1.0, lmax), 4);
    return op == orc::IDEN ? base * k : base * k / double(t.h);
}
template<class T> struct M;
template<int F> struct M<FemFix<F>> { static SP get() { return orc::unit(F); } };
template<int N, int F> struct M<FemVec<N, F>> { static SP get() { return orc::vec(N, orc::unit(F)); } };
template<bool b, int N, class T> struct M<FemComDetails::FemVecTImpl<b, N, T>> { static SP get() { return orc::vec(N, M<T>::get()); } };
template<bool b, class... T> struct M<FemComDetails::FemComImpl<b, T...>> { static SP get() { return orc::cpx({M<T>::get()...}); } };
template<bool b, class... T> struct M<FemComDetails::FemUnionTImpl<b, T...>> { static SP get() { return orc::uni({M<T>::get()...}); } };
} // namespace lib

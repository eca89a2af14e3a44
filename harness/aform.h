// Elemental matrices: model of the integrals (long double, exact quadrature), coefficient tensors with recorded use, and drivers of
// every interface of the library that computes such a matrix.
#pragma once
#include "space.h"
namespace af {
using namespace lib;
using std::vector;
enum Dom { TET, FACE, FACEN, EDGE, NODE, PNTL, PNTX };
inline const char* domName(int d) { static const char* n[] = {"tet", "face", "faceN", "edge", "node", "pntL", "pntX"}; return n[d]; }
struct Form { Dom dom = TET; int part = 0, order = 1; vector<Tet> ts; vector<double> XYL, X, WG;
    int f() const { return int(ts.size()); }
    int maxOrder() const { return dom == EDGE ? 21 : 20; }
    bool pointwise() const { return dom >= NODE; }
    // integration points of the model, exact for the given degree
    vector<orc::QP> pts(int deg, int r) const {
        const Tet& t = ts[r]; vector<orc::QP> p; L mes = 1;
        switch (dom) {
        case TET: p = orc::quad(deg, orc::allV()); mes = t.V; break;
        case FACE: case FACEN: p = orc::quad(deg, orc::faceV(part)); mes = t.area(part); break;
        case EDGE: p = orc::quad(deg, orc::edgeV(part)); mes = t.edge(part); break;
        case NODE: p = orc::quad(deg, {part}); break;
        case PNTL: for (size_t n = 0; 4*n < XYL.size(); ++n) { orc::QP q; for (int i = 0; i < 4; ++i) q.l[i] = XYL[4*n+i]; q.w = WG[n]; p.push_back(q); } break;
        case PNTX: for (size_t n = 0; 3*n < X.size(); ++n) { orc::QP q; L x[3] = {X[3*n], X[3*n+1], X[3*n+2]}; t.bary(x, q.l); q.w = WG[n]; p.push_back(q); } break;
        }
        for (auto& q : p) q.w *= mes;
        return p;
    }
    // physical points where the library must ask for the coefficient (a superset is never asked)
    std::string str() const { return fmt("%s part=%d order=%d f=%d q=%zu tet0 %s", domName(dom), part, order, f(), WG.size(), ts[0].str().c_str()); }
};
// D(x) = a0 + a1*(g.xi)^deg entrywise, xi = (x - X0_r)/h_r, multiplied by 1+0.3r when perTet
struct Coef { int R = 1, C = 1, deg = 0, st = TENSOR_GENERAL; bool perTet = false; vector<L> a0, a1; L g[3]; const vector<Tet>* ts;
    void eval(const L* x, int r, vector<L>& D) const {
        const Tet& t = (*ts)[r]; L s = 0; for (int k = 0; k < 3; ++k) s += g[k]*(x[k]-t.X[0][k])/t.h; L p = 1; for (int k = 0; k < deg; ++k) p *= s;
        L m = perTet ? 1+0.3L*r : 1; D.assign(size_t(R)*C, 0);
        // a multiple of the identity; for a right-hand side (one function, one component) of the vector of ones
        if (st == TENSOR_NULL || st == TENSOR_SCALAR) { L v = st == TENSOR_NULL ? 1 : m*(a0[0] + (deg ? a1[0]*p : 0)); if (R != C && C == 1) D.assign(R, v); else for (int i = 0; i < R && i < C; ++i) D[i+size_t(R)*i] = v; return; }
        for (size_t i = 0; i < D.size(); ++i) D[i] = m*(a0[i] + (deg ? a1[i]*p : 0));
    }
    static Coef rand(Rng& r, int R, int C, int st, int deg, bool perTet, const vector<Tet>& ts) {
        Coef c; c.R = R; c.C = C; c.st = st; c.deg = deg; c.perTet = perTet && st != TENSOR_NULL; c.ts = &ts; if (st == TENSOR_NULL) c.deg = 0;
        c.a0.resize(R*C); c.a1.resize(R*C); for (auto& v : c.a0) v = r.coin(1, 6) ? 0 : r.sym(); for (auto& v : c.a1) v = r.coin(1, 6) ? 0 : r.sym(); for (L& v : c.g) v = r.sym();
        if (st == TENSOR_SYMMETRIC) for (int i = 0; i < R; ++i) for (int j = 0; j < i; ++j) c.a0[i+R*j] = c.a0[j+R*i], c.a1[i+R*j] = c.a1[j+R*i];
        return c;
    }
};
struct Call { int it; double x[3]; };
struct Log { long calls = 0, bad = 0; std::string first; bool rec = false; vector<Call> at; void err(const std::string& s) { if (!bad++) first = s; } };
// report: >0 always that kind; 0 a (valid) kind that differs from call to call; -1 differs from tetra to tetra
struct Fun { const Coef* c; Log* log; void* ud; int report = TENSOR_GENERAL; bool anyTet = false;
    TensorType kind(int it) const {
        if (report > 0) return TensorType(report);
        long k = report == 0 ? log->calls : it; vector<int> v{TENSOR_GENERAL};
        if (c->st == TENSOR_SYMMETRIC) v = {TENSOR_SYMMETRIC, TENSOR_GENERAL};
        if (c->st == TENSOR_SCALAR) v = {TENSOR_SCALAR, TENSOR_GENERAL, TENSOR_SCALAR, TENSOR_SYMMETRIC};
        if (c->st == TENSOR_NULL) v = {TENSOR_NULL, TENSOR_GENERAL, TENSOR_SCALAR, TENSOR_NULL, TENSOR_SYMMETRIC};
        if (c->R != c->C) v.erase(std::remove(v.begin(), v.end(), (int)TENSOR_SYMMETRIC), v.end());
        return TensorType(v[(k*7+k/3) % v.size()]);
    }
    void fill(const L* x, int it, double* D, TensorType k) const {
        static thread_local vector<L> v; c->eval(x, it, v);
        if (k == TENSOR_NULL) return;
        if (k == TENSOR_SCALAR) { D[0] = double(v[0]); return; }
        for (size_t i = 0; i < v.size(); ++i) D[i] = double(v[i]);
    }
    TensorType operator()(const std::array<double, 3>& X, double* D, TensorDims d, void* u, int it) const {
        auto k = kind(it); ++log->calls;
        if ((int)d.first != c->R || (int)d.second != c->C) { log->err(fmt("coefficient asked with dimensions %zux%zu, declared %dx%d", d.first, d.second, c->R, c->C)); }
        if (u != ud) log->err("coefficient got another user data pointer");
        if (it < 0 || it >= (int)c->ts->size()) { log->err(fmt("coefficient asked for element %d of %zu", it, c->ts->size())); it = 0; }
        L x[3] = {X[0], X[1], X[2]};
        if (log->rec) log->at.push_back({it, {X[0], X[1], X[2]}});
        if ((int)d.first == c->R && (int)d.second == c->C) fill(x, it, D, k);
        return k;
    }
};
// the same coefficient through the interface for all points of the batch at once
struct FusFun { Fun f;
    template<class AM> TensorType operator()(ArrayView<> X, ArrayView<> D, TensorDims d, void* u, const AM& mem) const {
        const Coef* c = f.c; Log* log = f.log; ++log->calls; auto k = f.kind(0);
        if ((int)d.first != c->R || (int)d.second != c->C) { log->err(fmt("coefficient asked with dimensions %zux%zu, declared %dx%d", d.first, d.second, c->R, c->C)); return k; }
        if (u != f.ud) log->err("coefficient got another user data pointer");
        size_t q = mem.q, ff = mem.f; if (ff != c->ts->size()) { log->err(fmt("coefficient asked for %zu elements of %zu", ff, c->ts->size())); return k; }
        if (X.size < 3*q*ff || D.size < q*ff*c->R*c->C) { log->err(fmt("coefficient got arrays of %zu coordinates and %zu values for %zu points of %dx%d", (size_t)X.size, (size_t)D.size, q*ff, c->R, c->C)); return k; }
        for (size_t r = 0; r < ff; ++r) for (size_t n = 0; n < q; ++n) { const double* p = X.data + 3*(n+q*r); L x[3] = {p[0], p[1], p[2]};
            if (log->rec) log->at.push_back({int(r), {p[0], p[1], p[2]}});
            f.fill(x, int(r), D.data + size_t(c->R)*c->C*(n+q*r), k); }
        return k;
    }
};
struct Model { vector<L> A; vector<L> tol; int nfa, nfb, deg; };
inline Model model(const Form& F, const Sp& sa, int oa, const Sp& sb, int ob, const Coef& D) {
    Model M; int nfa = sa.nf(), nfb = sb.nf(), da = orc::dimOp(oa, sa.dim()), db = orc::dimOp(ob, sb.dim()); M.nfa = nfa; M.nfb = nfb;
    M.deg = orc::opOrder(oa, sa) + orc::opOrder(ob, sb) + D.deg; M.A.assign(size_t(nfa)*nfb*F.f(), 0);
    vector<L> Dv;
    for (int r = 0; r < F.f(); ++r) { const Tet& t = F.ts[r]; L n[3] = {0,0,0}; if (F.dom == FACEN) t.normal(F.part, n);
        L W = 0, mA = 0, mB = 0, mD = 0, lmax = 1;
        for (auto& q : F.pts(M.deg, r)) {
            auto a = orc::opVals(oa, sa, t, q.l), b = orc::opVals(ob, sb, t, q.l); L x[3]; t.point(q.l, x); D.eval(x, r, Dv);
            for (int i = 0; i < 4; ++i) lmax = std::max(lmax, fabsl(q.l[i]));
            W += fabsl(q.w); mA = std::max(mA, orc::maxabs(a)); mB = std::max(mB, orc::maxabs(b)); mD = std::max(mD, orc::maxabs(Dv));
            for (int j = 0; j < nfa; ++j) { vector<L> du(db, 0);
                for (int k = 0; k < db; ++k) for (int l = 0; l < da; ++l)
                    if (F.dom == FACEN) for (int s = 0; s < 3; ++s) du[k] += Dv[s+3*k + size_t(D.R)*l]*n[s]*a[size_t(j)*da+l];
                    else du[k] += Dv[k + size_t(D.R)*l]*a[size_t(j)*da+l];
                for (int i = 0; i < nfb; ++i) { L s = 0; for (int k = 0; k < db; ++k) s += du[k]*b[size_t(i)*db+k]; M.A[i + size_t(nfb)*(j + size_t(nfa)*r)] += q.w*s; } }
        }
        L ta = lib::opTol(oa, t, double(lmax)), tb = lib::opTol(ob, t, double(lmax)), sh = std::max(L(1), t.shift/t.h);
        if (F.dom == PNTX) { L xe = 1e-15L*t.kappa*(1+sh); ta += 100*xe*(mA + (oa == orc::IDEN ? 1 : 1/t.h)); tb += 100*xe*(mB + (ob == orc::IDEN ? 1 : 1/t.h)); }
        L n3 = F.dom == FACEN ? 3 : 1;
        M.tol.push_back(0.04L*W*n3*(da*db)*(mD*(ta*(mB+tb) + mA*tb) + mA*mB*(mD*1e-13L*t.kappa + 2e-15L*(1+D.deg)*(1+sh)*std::max(mD, L(1)))) + 1e-300L);
    }
    return M;
}
struct Out { std::unique_ptr<double[]> d; DenseMatrix<> A; Out(int nfb, int nfa, int f) : d(new double[size_t(nfa)*nfb*f]) { size_t n = size_t(nfa)*nfb*f; for (size_t i = 0; i < n; ++i) d[i] = NAN; A.Init(d.get(), 0, 0, n); } };
inline void compare(Mon& m, const std::string& key, const Model& M, const Form& F, const DenseMatrix<>& A) {
    if (!m.check((int)A.nRow == M.nfb && (int)A.nCol == M.nfa*F.f(), key + ":shape", "matrix is %zux%zu want %dx%d", (size_t)A.nRow, (size_t)A.nCol, M.nfb, M.nfa*F.f())) return;
    for (int r = 0; r < F.f(); ++r) for (int j = 0; j < M.nfa; ++j) for (int i = 0; i < M.nfb; ++i)
        if (!m.close(A.data[i + size_t(M.nfb)*(j + size_t(M.nfa)*r)], double(M.A[i + size_t(M.nfb)*(j + size_t(M.nfa)*r)]), double(M.tol[r]), key, "A", i, j + M.nfa*r)) return;
}
inline void checkLog(Mon& m, const std::string& key, const Log& l, bool mustCall = true) {
    m.check(l.bad == 0, key + ":coef", "%s (%ld times)", l.first.c_str(), l.bad); if (mustCall) m.check(l.calls > 0, key + ":coef", "the coefficient was never asked for"); m.obs("coefficient evaluations", l.calls); }
inline Tetra<const double> tetra(const Tet& t) { return Tetra<const double>(t.x[0], t.x[1], t.x[2], t.x[3]); }
// PlainMemory with the exact announced size
inline DynMem<>*& threadPool() { static thread_local DynMem<>* p = nullptr; return p; } // the pool given to this thread by M02
inline DynMem<>& pool() { static DynMem<> p; return threadPool() ? *threadPool() : p; }
// the face and edge loops of the library ask for float-typed user data in no way; any pointer works
template<class Tr, class Fn>
void runX(const Form& F, const ApplyOpBase& U, const ApplyOpBase& V, const Fn& fn, DenseMatrix<>& A, void* ud, bool dyn, double poison = NAN) {
    Batch B(F.ts); int f = F.f();
    vector<double> XYL = F.XYL, WG = F.WG; ArrayView<> xl(XYL.data(), XYL.size()), wg(WG.data(), WG.size()); ArrayView<const double> X(F.X.data(), F.X.size());
    auto tt = tetra(F.ts[0]); auto& P = pool();
    auto mem = [&](PlainMemoryX<> req) { return XMem(req, poison); };
    switch (F.dom) {
    case TET: if (dyn) fem3Dtet<Tr>(B.T, U, V, fn, A, P, F.order, ud); else { auto m = mem(fem3Dtet_memory_requirements<Tr>(U, V, F.order, f)); fem3Dtet<Tr>(B.T, U, V, fn, A, m.pm, F.order, ud); } break;
    case FACE: if (dyn) fem3Dface<Tr>(B.T, F.part, U, V, fn, A, P, F.order, ud); else { auto m = mem(fem3Dface_memory_requirements<Tr>(U, V, F.order, f)); fem3Dface<Tr>(B.T, F.part, U, V, fn, A, m.pm, F.order, ud); } break;
    case FACEN: if (dyn) fem3DfaceN<Tr>(B.T, F.part, U, V, fn, A, P, F.order, ud); else { auto m = mem(fem3DfaceN_memory_requirements<Tr>(U, V, F.order, f)); fem3DfaceN<Tr>(B.T, F.part, U, V, fn, A, m.pm, F.order, ud); } break;
    case EDGE: if (dyn) fem3Dedge<Tr>(B.T, F.part, U, V, fn, A, P, F.order, ud); else { auto m = mem(fem3Dedge_memory_requirements<Tr>(U, V, F.order, f)); fem3Dedge<Tr>(B.T, F.part, U, V, fn, A, m.pm, F.order, ud); } break;
    case NODE: if (dyn) fem3Dnode<Tr>(B.T, F.part, U, V, fn, A, P, ud); else { auto m = mem(fem3Dnode_memory_requirements<Tr>(U, V, f)); fem3Dnode<Tr>(B.T, F.part, U, V, fn, A, m.pm, ud); } break;
    case PNTL: if (dyn) fem3DpntL<Tr>(B.T, xl, wg, U, V, fn, A, P, ud); else { auto m = mem(fem3DpntL_memory_requirements<Tr>(U, V, int(WG.size()), f)); fem3DpntL<Tr>(B.T, xl, wg, U, V, fn, A, m.pm, ud); } break;
    case PNTX: if (dyn) fem3DpntX<Tr>(tt, X, wg, U, V, fn, A, P, ud); else { auto m = mem(fem3DpntX_memory_requirements<Tr>(U, V, int(WG.size()), 1)); fem3DpntX<Tr>(tt, X, wg, U, V, fn, A, m.pm, ud); } break;
    }
}
enum CtIf { STAT1, STAT3, PLAIN, DYN, XYSTAT, XYPLAIN, NATIVE, NCT };
inline const char* ifName(int i) { static const char* n[] = {"static", "static3", "planned", "pool", "XY-static", "XY-planned", "native"}; return n[i]; }
inline bool ifOk(int i, const Form& F, int nfa, int nfb) {
    if (F.dom == PNTX && i == STAT3) return false;
    if (i == NATIVE) return false;
    if (i == STAT1 || i == STAT3 || i == XYSTAT) {
        if (F.f() > (i == STAT3 ? 3 : 1) || nfa > 30 || nfb > 30) return false;
        if (F.dom == TET && F.order > 6) return false; if ((F.dom == FACE || F.dom == FACEN) && F.order > 9) return false; if (F.dom == EDGE && F.order > 20) return false;
        if (F.dom >= PNTL && F.WG.size() > 24) return false;
    }
    return true;
}
template<class OA, class OB, class Tr, class Fn>
void runC(int iface, const Form& F, const Fn& fn, DenseMatrix<>& A, void* ud, double poison = NAN) {
    Batch B(F.ts); int f = F.f(), pt = F.part, od = F.order; int q = int(F.WG.size());
    vector<double> XYL = F.XYL, WG = F.WG; ArrayView<> xl(XYL.data(), XYL.size()), wg(WG.data(), WG.size()); ArrayView<const double> X(F.X.data(), F.X.size());
    auto tt = tetra(F.ts[0]); auto& P = pool(); auto& T = B.T;
    DenseMatrix<const double> Y[4]; for (int v = 0; v < 4; ++v) Y[v].Init(B.c[v].data(), 3, f, size_t(3*f));
    const double* Z[4]; for (int v = 0; v < 4; ++v) Z[v] = B.c[v].data();
    auto mem = [&](PlainMemory<> r) { return PMem(r, poison); };
    switch (F.dom) {
    case TET: switch (iface) {
        case STAT1: fem3Dtet<OA, OB, Tr, 1>(T, fn, A, od, ud); break; case STAT3: fem3Dtet<OA, OB, Tr, 3>(T, fn, A, od, ud); break;
        case PLAIN: { auto m = mem(fem3Dtet_memory_requirements<OA, OB>(od, f)); fem3Dtet<OA, OB, Tr>(T, fn, A, m.pm, od, ud); } break;
        case DYN: fem3Dtet<OA, OB, Tr>(T, fn, A, P, od, ud); break;
        case XYSTAT: fem3Dtet<OA, OB, Tr, 1>(Y[0], Y[1], Y[2], Y[3], fn, A, od, ud); break;
        case XYPLAIN: { auto m = mem(fem3Dtet_memory_requirements<OA, OB>(od, f)); fem3Dtet<OA, OB, Tr>(Y[0], Y[1], Y[2], Y[3], fn, A, m.pm, od, ud); } break; } break;
#define AF_PART(NAME) switch (iface) { \
        case STAT1: NAME<OA, OB, Tr, 1>(T, pt, fn, A, od, ud); break; case STAT3: NAME<OA, OB, Tr, 3>(T, pt, fn, A, od, ud); break; \
        case PLAIN: { auto m = mem(NAME##_memory_requirements<OA, OB>(od, f)); NAME<OA, OB, Tr>(T, pt, fn, A, m.pm, od, ud); } break; \
        case DYN: NAME<OA, OB, Tr>(T, pt, fn, A, P, od, ud); break; \
        case XYSTAT: NAME<OA, OB, Tr, 1>(Y[0], Y[1], Y[2], Y[3], pt, fn, A, od, ud); break; \
        case XYPLAIN: { auto m = mem(NAME##_memory_requirements<OA, OB>(od, f)); NAME<OA, OB, Tr>(Y[0], Y[1], Y[2], Y[3], pt, fn, A, m.pm, od, ud); } break; }
    case FACE: AF_PART(fem3Dface) break;
    case FACEN: AF_PART(fem3DfaceN) break;
    case EDGE: AF_PART(fem3Dedge) break;
#undef AF_PART
    case NODE: switch (iface) {
        case STAT1: fem3Dnode<OA, OB, Tr, 1>(T, pt, fn, A, ud); break; case STAT3: fem3Dnode<OA, OB, Tr, 3>(T, pt, fn, A, ud); break;
        case PLAIN: { auto m = mem(fem3Dnode_memory_requirements<OA, OB>(f)); fem3Dnode<OA, OB, Tr>(T, pt, fn, A, m.pm, ud); } break;
        case DYN: fem3Dnode<OA, OB, Tr>(T, pt, fn, A, P, ud); break;
        case XYSTAT: fem3Dnode<OA, OB, Tr, 1>(Y[0], Y[1], Y[2], Y[3], pt, fn, A, ud); break;
        case XYPLAIN: { auto m = mem(fem3Dnode_memory_requirements<OA, OB>(f)); fem3Dnode<OA, OB, Tr>(Y[0], Y[1], Y[2], Y[3], pt, fn, A, m.pm, ud); } break; } break;
    case PNTL: switch (iface) {
        case STAT1: fem3DpntL<OA, OB, Tr, 1>(T, xl, wg, fn, A, ud); break; case STAT3: fem3DpntL<OA, OB, Tr, 3>(T, xl, wg, fn, A, ud); break;
        case PLAIN: { auto m = mem(fem3DpntL_memory_requirements<OA, OB>(q, f)); fem3DpntL<OA, OB, Tr>(T, xl, wg, fn, A, m.pm, ud); } break;
        case DYN: fem3DpntL<OA, OB, Tr>(T, xl, wg, fn, A, P, ud); break;
        case XYSTAT: fem3DpntL<OA, OB, Tr, 1>(Y[0], Y[1], Y[2], Y[3], xl, wg, fn, A, ud); break;
        case XYPLAIN: { auto m = mem(fem3DpntL_memory_requirements<OA, OB>(q, f)); fem3DpntL<OA, OB, Tr>(Y[0], Y[1], Y[2], Y[3], xl, wg, fn, A, m.pm, ud); } break; } break;
    case PNTX: switch (iface) {
        case STAT1: fem3DpntX<OA, OB, Tr>(tt, X, wg, fn, A, ud); break;
        case PLAIN: { auto m = mem(fem3DpntX_memory_requirements<OA, OB>(q, 1)); fem3DpntX<OA, OB, Tr>(tt, X, wg, fn, A, m.pm, ud); } break;
        case DYN: fem3DpntX<OA, OB, Tr>(tt, X, wg, fn, A, P, ud); break;
        case XYSTAT: fem3DpntX<OA, OB, Tr>(Z[0], Z[1], Z[2], Z[3], X, wg, fn, A, ud); break;
        case XYPLAIN: { auto m = mem(fem3DpntX_memory_requirements<OA, OB>(q, 1)); fem3DpntX<OA, OB, Tr>(Z[0], Z[1], Z[2], Z[3], X, wg, fn, A, m.pm, ud); } break; } break;
    }
}
// random geometry and parameters of a form of total degree deg
inline Form randForm(Rng& r, Dom dom, int deg, int maxf = 3) {
    Form F; F.dom = dom; int f = dom == PNTX ? 1 : std::vector<int>{1, 1, 1, 2, 3}[r.range(0, 4)]; f = std::min(f, maxf);
    for (int i = 0; i < f; ++i) F.ts.push_back(orc::randTet(r));
    F.part = dom == FACE || dom == FACEN || dom == NODE ? r.range(0, 3) : dom == EDGE ? r.range(0, 5) : 0;
    F.order = std::min(F.maxOrder(), deg + (r.coin() ? 0 : r.coin() ? 1 : r.range(1, 5)));
    if (dom == PNTL || dom == PNTX) { int q = r.coin(1, 8) ? r.range(20, 30) : r.range(1, 6);
        for (int n = 0; n < q; ++n) { double l[4]; orc::randBary(r, l, true); for (int i = 0; i < 4; ++i) F.XYL.push_back(l[i]); F.WG.push_back(r.coin(1, 8) ? 0 : r.uni(-1, 2)); }
        if (dom == PNTX) { for (int n = 0; n < q; ++n) { L l[4], x[3]; for (int i = 0; i < 4; ++i) l[i] = F.XYL[4*n+i]; F.ts[0].point(l, x); for (int k = 0; k < 3; ++k) F.X.push_back(double(x[k])); } F.XYL.clear(); } }
    return F;
}
struct RtOp { SP s; int op; FemSpace sp; };
// run-time pair of spaces with operators; dims of the coefficient
inline int pickOp(Rng& r, const Sp& s) { for (;;) { int o = orc::OPS[r.range(0, 6)]; if (orc::opOk(o, s.dim())) return r.coin(1, 3) ? orc::IDEN : o; } }
// a pair of operators with three rows each, block-wise against single-block more often than chance would give; a scalar or null coefficient then fills only parts of D*U
inline void matchedPair(Rng& r, SP& sa, SP& sb, int& oa, int& ob) {
    auto blocks = [&](int& o) { o = orc::IDEN; int f[] = {orc::P0, orc::P1, orc::P2, orc::CR1}; SP b = orc::unit(f[r.range(0, 3)]), c = orc::unit(f[r.range(0, 3)]); return r.coin() ? orc::vec(3, b) : r.coin() ? orc::cpx({b, orc::vec(2, c)}) : orc::cpx({orc::vec(2, c), b}); };
    auto single = [&](int& o) { int k = r.range(0, 4); o = k < 2 ? orc::IDEN : k == 2 ? orc::CURL : orc::GRAD; int f[] = {orc::P1, orc::P2, orc::CR1}; return k == 0 ? orc::unit(orc::RT0) : k < 3 ? orc::unit(orc::ND0) : orc::unit(f[r.range(0, 2)]); };
    bool a = r.coin(2, 3), b = r.coin(1, 3); sa = a ? blocks(oa) : single(oa); sb = b ? blocks(ob) : single(ob); }
inline int tensorStruct(Rng& r, int R, int C) { if (R != C) return TENSOR_GENERAL; int k = r.range(0, 5); return k == 0 ? TENSOR_NULL : k == 1 ? TENSOR_SCALAR : k == 2 ? TENSOR_SYMMETRIC : TENSOR_GENERAL; }
inline void runtimeForm(Mon& m, Rng& r, Dom dom, SP sa, SP sb, bool sameOp = false) {
    if (orc::unionQuality(*sa) < 1e-4L || orc::unionQuality(*sb) < 1e-4L) { m.obs("skipped dependent sums"); return; }
    int oa = pickOp(r, *sa), ob = sameOp ? oa : pickOp(r, *sb); if (sameOp) sb = sa;
    int da = orc::dimOp(oa, sa->dim()), db = orc::dimOp(ob, sb->dim());
    int R = db*(dom == FACEN ? 3 : 1), C = da, st = tensorStruct(r, R, C);
    int base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb), deg = base > 12 ? 0 : r.range(0, 2);
    m.desc("%s(%s) x %s(%s) setup", orc::opName(oa), sa->str().c_str(), orc::opName(ob), sb->str().c_str());
    Form F = randForm(r, dom, base + (st == TENSOR_NULL ? 0 : deg), sa->nf()*sb->nf() > 900 ? 1 : 3);
    Coef D = Coef::rand(r, R, C, st, deg, r.coin(), F.ts);
    m.desc("%s(%s) x %s(%s) D kind %d deg %d, %s", orc::opName(oa), sa->str().c_str(), orc::opName(ob), sb->str().c_str(), st, D.deg, F.str().c_str());
    m.distinct(sa->str() + orc::opName(oa) + sb->str() + orc::opName(ob) + domName(dom) + fmt("%d/%d", F.part, F.f())); m.sample(sa->str() + "." + orc::opName(oa) + " x " + sb->str() + "." + orc::opName(ob));
    FemSpace spa = makeRaw(*sa), spb = r.coin() ? makeRaw(*sb) : makeAlg(*sb);
    auto A1 = spa.getOP((OperatorType)oa), B1 = spb.getOP((OperatorType)ob);
    Model M = model(F, *sa, oa, *sb, ob, D);
    int ud = 7; Log log; Fun fn{&D, &log, &ud, st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0};
    for (int dyn = 0; dyn < 2; ++dyn) { m.eval(); log = Log(); std::string key = std::string("run:") + domName(dom) + (dyn ? ":pool" : ":planned"); m.key(key);
        Out o(M.nfb, M.nfa, F.f());
        if (sameOp) runX<DfuncTraits<>>(F, A1, A1, fn, o.A, &ud, dyn); else runX<DfuncTraits<>>(F, A1, B1, fn, o.A, &ud, dyn);
        compare(m, key, M, F, o.A); checkLog(m, key, log); m.obs(std::string("run-time ") + domName(dom)); }
}
template<int oa, class TA, int ob, class TB, class Tr = DfuncTraits<>> void ctForm(Mon& m, Rng& r, Dom dom) {
    typedef Operator<oa, TA> OA; typedef Operator<ob, TB> OB; SP sa = lib::M<TA>::get(), sb = lib::M<TB>::get();
    int da = orc::dimOp(oa, sa->dim()), db = orc::dimOp(ob, sb->dim()), R = db*(dom == FACEN ? 3 : 1), C = da, st = tensorStruct(r, R, C);
    int base = orc::opOrder(oa, *sa) + orc::opOrder(ob, *sb), deg = r.range(0, 1 + (base < 6));
    Form F = randForm(r, dom, base + (st == TENSOR_NULL ? 0 : deg)); Coef D = Coef::rand(r, R, C, st, deg, r.coin(), F.ts);
    std::string d = sa->str() + "." + orc::opName(oa) + " x " + sb->str() + "." + orc::opName(ob);
    m.distinct("ct" + d + domName(dom) + fmt("%d/%d", F.part, F.f())); m.sample(d);
    Model M = model(F, *sa, oa, *sb, ob, D); int ud = 3; Log log; Fun fn{&D, &log, &ud, st == TENSOR_GENERAL ? (int)TENSOR_GENERAL : 0};
    for (int i = 0; i < NCT; ++i) if (ifOk(i, F, M.nfa, M.nfb)) { m.eval(); log = Log(); std::string key = std::string("ct:") + domName(dom) + ":" + ifName(i); m.key(key);
        m.desc("%s %s D kind %d deg %d, %s", ifName(i), d.c_str(), st, D.deg, F.str().c_str());
        Out o(M.nfb, M.nfa, F.f()); runC<OA, OB, Tr>(i, F, fn, o.A, &ud); compare(m, key, M, F, o.A); checkLog(m, key, log); m.obs(std::string("compile-time ") + domName(dom) + " " + ifName(i)); }
    { m.eval(); log = Log(); std::string key = std::string("wrap:") + domName(dom); m.key(key); m.desc("wrapped %s D kind %d deg %d, %s", d.c_str(), st, D.deg, F.str().c_str());
      // compile-time operators through the run-time interface, mixed with run-time operators
      FemSpace spa = makeRaw(*sa), spb = makeRaw(*sb); auto A1 = spa.getOP((OperatorType)oa), B1 = spb.getOP((OperatorType)ob);
      ApplyOpFromTemplate<(OperatorType)oa, TA> A2; ApplyOpFromTemplate<(OperatorType)ob, TB> B2; int k = r.range(0, 2);
      Out o(M.nfb, M.nfa, F.f()); runX<Tr>(F, k == 1 ? (const ApplyOpBase&)A1 : A2, k == 2 ? (const ApplyOpBase&)B1 : B2, fn, o.A, &ud, r.coin()); compare(m, key, M, F, o.A); checkLog(m, key, log); }
}
} // namespace af

// Independent model of tetrahedra, finite element bases and differential operators, in long double,
// written from the documented definitions of the spaces (no code of the library is used for the model).
#pragma once
#include "mon.h"
#include <memory>
namespace orc {
typedef long double L;
static const int EN[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
static const int FN[4][3] = {{0,1,2},{1,2,3},{2,3,0},{3,0,1}};
static const int OPP[4] = {3, 0, 1, 2};               // vertex opposite to face k
static const double EPS = 2.220446049250313e-16;

// ---------------------------------------------------------------- tetrahedra
struct Tet {
    double x[4][3]; L X[4][3]; L G[4][3]; L det, V, h, kappa, shift;
    const double* p(int i) const { return x[i]; }
    void init() {
        for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) X[i][k] = x[i][k];
        L a[3][3]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) a[i][k] = X[i+1][k] - X[0][k];
        auto cr = [](const L* u, const L* v, L* r) { r[0] = u[1]*v[2]-u[2]*v[1]; r[1] = u[2]*v[0]-u[0]*v[2]; r[2] = u[0]*v[1]-u[1]*v[0]; };
        cr(a[1], a[2], G[1]); cr(a[2], a[0], G[2]); cr(a[0], a[1], G[3]);
        det = a[0][0]*G[1][0] + a[0][1]*G[1][1] + a[0][2]*G[1][2];
        for (int i = 1; i < 4; ++i) for (int k = 0; k < 3; ++k) G[i][k] /= det;
        for (int k = 0; k < 3; ++k) G[0][k] = -G[1][k]-G[2][k]-G[3][k];
        V = fabsl(det) / 6; h = 0; L g = 0; shift = 0;
        for (int i = 0; i < 4; ++i) { L s = 0; for (int k = 0; k < 3; ++k) { s += G[i][k]*G[i][k]; shift = std::max(shift, fabsl(X[i][k])); } g = std::max(g, sqrtl(s)); }
        for (int e = 0; e < 6; ++e) h = std::max(h, edge(e));
        kappa = g * h;
    }
    L edge(int e) const { L s = 0; for (int k = 0; k < 3; ++k) { L d = X[EN[e][1]][k]-X[EN[e][0]][k]; s += d*d; } return sqrtl(s); }
    L area(int f) const { L g = 0; for (int k = 0; k < 3; ++k) g += G[OPP[f]][k]*G[OPP[f]][k]; return 3*V*sqrtl(g); }
    void normal(int f, L n[3]) const { L g = 0; for (int k = 0; k < 3; ++k) g += G[OPP[f]][k]*G[OPP[f]][k]; g = sqrtl(g); for (int k = 0; k < 3; ++k) n[k] = -G[OPP[f]][k]/g; }
    void point(const L* l, L* r) const { for (int k = 0; k < 3; ++k) { r[k] = 0; for (int i = 0; i < 4; ++i) r[k] += l[i]*X[i][k]; } }
    void bary(const L* y, L* l) const { for (int i = 0; i < 4; ++i) { l[i] = i == 0; for (int k = 0; k < 3; ++k) l[i] += G[i][k]*(y[k]-X[0][k]); } }
    std::string str() const { std::string s; for (int i = 0; i < 4; ++i) s += fmt("(%.17g,%.17g,%.17g)", x[i][0], x[i][1], x[i][2]); return s; }
};
// cls: 0 reference-like, 1 well shaped, 2 anisotropic, 3 shifted, 4 scaled; orientation random
inline Tet randTet(Rng& r, int cls = -1) {
    if (cls < 0) cls = r.range(0, 4);
    for (;;) {
        Tet t;
        static const double ref[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}};
        for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) t.x[i][k] = ref[i][k] + (cls == 0 ? 0 : 0.35*r.sym());
        if (cls == 0 && r.coin()) { int s = r.range(0, 3); std::swap(t.x[s][0], t.x[(s+1)%4][0]); std::swap(t.x[s][1], t.x[(s+1)%4][1]); std::swap(t.x[s][2], t.x[(s+1)%4][2]); }
        if (cls >= 1) { // random rotation-ish mix and random vertex order
            double A[3][3]; for (auto& a : A) for (double& v : a) v = r.sym(); for (int i = 0; i < 3; ++i) A[i][i] += r.coin() ? 1.2 : -1.2;
            if (cls == 2) { int k = r.range(0, 2); double f = std::pow(10.0, r.uni(-1.5, 0)); for (int j = 0; j < 3; ++j) A[k][j] *= f; }
            for (int i = 0; i < 4; ++i) { double y[3]; for (int k = 0; k < 3; ++k) y[k] = A[k][0]*t.x[i][0]+A[k][1]*t.x[i][1]+A[k][2]*t.x[i][2]; for (int k = 0; k < 3; ++k) t.x[i][k] = y[k]; }
            if (cls == 4 || (cls == 2 && r.coin(1,3))) { double s = std::pow(10.0, r.uni(-4, 4)); for (auto& a : t.x) for (double& v : a) v *= s; }
            if (cls == 3) { double d[3]; for (double& v : d) v = 50*r.sym(); for (auto& a : t.x) for (int k = 0; k < 3; ++k) a[k] += d[k]; }
            for (int i = 3; i > 0; --i) { int j = r.range(0, i); for (int k = 0; k < 3; ++k) std::swap(t.x[i][k], t.x[j][k]); }
        }
        t.init();
        if (t.V > 0 && t.kappa < 150) return t;
    }
}
// random barycentric point: interior, on a face/edge/vertex, or (ext) outside
inline void randBary(Rng& r, double* l, bool ext = false) {
    int c = r.range(0, ext ? 9 : 8);
    if (c == 0) { for (int i = 0; i < 4; ++i) l[i] = 0; l[r.range(0,3)] = 1; return; }
    if (c == 9) { double s = 0; for (int i = 0; i < 3; ++i) { l[i] = r.uni(-0.5, 1); s += l[i]; } l[3] = 1 - s; return; }
    double s = 0; for (int i = 0; i < 4; ++i) { l[i] = -std::log(r.uni(1e-9, 1)); s += l[i]; }
    if (c == 1) { int i = r.range(0,3); s -= l[i]; l[i] = 0; }
    if (c == 2) { int e = r.range(0,5); for (int i = 0; i < 4; ++i) if (i != EN[e][0] && i != EN[e][1]) { s -= l[i]; l[i] = 0; } }
    double q = 0; int m = 0; for (int i = 0; i < 4; ++i) { l[i] /= s; if (l[i] > l[m]) m = i; }
    for (int i = 0; i < 4; ++i) if (i != m) q += l[i];
    l[m] = 1 - q;
}

// ---------------------------------------------------------------- spaces
enum Fam { P0 = 1, P1 = 2, P2 = 3, P3 = 4, RT0 = 21, ND0 = 25, CR1 = 31, B2 = 1002, B4 = 1004 };
static const int FAMS[9] = {P0, P1, P2, P3, RT0, ND0, CR1, B2, B4};
enum Op { IDEN = 1, GRAD = 2, DIV = 3, CURL = 4, DUDX = 6, DUDY = 7, DUDZ = 8 };
static const int OPS[7] = {IDEN, GRAD, DIV, CURL, DUDX, DUDY, DUDZ};
inline const char* opName(int o) { switch (o) { case IDEN: return "IDEN"; case GRAD: return "GRAD"; case DIV: return "DIV"; case CURL: return "CURL"; case DUDX: return "DUDX"; case DUDY: return "DUDY"; default: return "DUDZ"; } }
inline const char* famName(int f) { switch (f) { case P0: return "P0"; case P1: return "P1"; case P2: return "P2"; case P3: return "P3"; case RT0: return "RT0"; case ND0: return "ND0"; case CR1: return "CR1"; case B2: return "B2"; default: return "B4"; } }
inline int famNf(int f) { switch (f) { case P0: return 1; case P1: return 4; case P2: return 10; case P3: return 20; case RT0: return 4; case ND0: return 6; case CR1: return 4; case B2: return 6; default: return 1; } }
inline int famDim(int f) { return f == RT0 || f == ND0 ? 3 : 1; }
inline int famOrder(int f) { switch (f) { case P0: return 0; case P1: case RT0: case ND0: case CR1: return 1; case P2: case B2: return 2; case P3: return 3; default: return 4; } }

struct Sp; typedef std::shared_ptr<Sp> SP;
struct Sp {
    enum K { Unit, Vec, Cpx, Uni } k = Unit; int fam = P1, n = 0; std::vector<SP> ch;
    int dim() const { if (k == Unit) return famDim(fam); if (k == Vec) return n*ch[0]->dim(); if (k == Uni) return ch[0]->dim(); int s = 0; for (auto& c : ch) s += c->dim(); return s; }
    int nf() const { if (k == Unit) return famNf(fam); if (k == Vec) return n*ch[0]->nf(); int s = 0; for (auto& c : ch) s += c->nf(); return s; }
    int order() const { if (k == Unit) return famOrder(fam); int s = 0; for (auto& c : ch) s = std::max(s, c->order()); return s; }
    std::string str() const {
        if (k == Unit) return famName(fam);
        if (k == Vec) return "(" + ch[0]->str() + ")^" + std::to_string(n);
        std::string s = k == Cpx ? "C(" : "U("; for (size_t i = 0; i < ch.size(); ++i) s += (i ? (k == Cpx ? "x" : "+") : "") + ch[i]->str(); return s + ")";
    }
    bool has(K q) const { if (k == q) return true; for (auto& c : ch) if (c->has(q)) return true; return false; }
    bool hasFam(int f) const { if (k == Unit) return fam == f; for (auto& c : ch) if (c->hasFam(f)) return true; return false; }
};
inline SP unit(int f) { auto s = std::make_shared<Sp>(); s->fam = f; return s; }
inline SP vec(int n, SP b) { auto s = std::make_shared<Sp>(); s->k = Sp::Vec; s->n = n; s->ch = {b}; return s; }
inline SP cpx(std::vector<SP> c) { auto s = std::make_shared<Sp>(); s->k = Sp::Cpx; s->ch = c; return s; }
inline SP uni(std::vector<SP> c) { auto s = std::make_shared<Sp>(); s->k = Sp::Uni; s->ch = c; return s; }

struct Dual { L v; L g[3]; };
inline Dual operator*(const Dual& a, const Dual& b) { Dual r; r.v = a.v*b.v; for (int k = 0; k < 3; ++k) r.g[k] = a.v*b.g[k]+a.g[k]*b.v; return r; }
inline Dual operator+(const Dual& a, const Dual& b) { Dual r; r.v = a.v+b.v; for (int k = 0; k < 3; ++k) r.g[k] = a.g[k]+b.g[k]; return r; }
inline Dual operator*(L s, const Dual& a) { Dual r; r.v = s*a.v; for (int k = 0; k < 3; ++k) r.g[k] = s*a.g[k]; return r; }
inline Dual cst(L v) { Dual r; r.v = v; r.g[0] = r.g[1] = r.g[2] = 0; return r; }

// basis functions: B[i*dim + c]
inline void famBasis(int fam, const Tet& t, const L* l, Dual* B) {
    Dual m[4]; for (int i = 0; i < 4; ++i) { m[i].v = l[i]; for (int k = 0; k < 3; ++k) m[i].g[k] = t.G[i][k]; }
    auto lin = [&](const Dual& a, L s, L c) { Dual r = s*a; r.v += c; return r; };
    switch (fam) {
    case P0: B[0] = cst(1); break;
    case P1: for (int i = 0; i < 4; ++i) B[i] = m[i]; break;
    case P2: for (int i = 0; i < 4; ++i) B[i] = m[i]*lin(m[i], 2, -1);
             for (int e = 0; e < 6; ++e) B[4+e] = 4*(m[EN[e][0]]*m[EN[e][1]]); break;
    case P3: for (int i = 0; i < 4; ++i) B[i] = 0.5L*(m[i]*lin(m[i], 3, -1)*lin(m[i], 3, -2));
             for (int e = 0; e < 6; ++e) for (int s = 0; s < 2; ++s) { auto &a = m[EN[e][s]], &b = m[EN[e][1-s]]; B[4+2*e+s] = 4.5L*(a*b*lin(a, 3, -1)); }
             for (int f = 0; f < 4; ++f) B[16+f] = 27*(m[FN[f][0]]*m[FN[f][1]]*m[FN[f][2]]); break;
    case CR1: for (int f = 0; f < 4; ++f) B[f] = lin(m[OPP[f]], -3, 1); break;
    case B2: for (int e = 0; e < 6; ++e) B[e] = 4*(m[EN[e][0]]*m[EN[e][1]]); break;
    case B4: B[0] = 256*(m[0]*m[1]*m[2]*m[3]); break;
    case RT0: { L y[3]; t.point(l, y);
        for (int f = 0; f < 4; ++f) { L s = t.area(f)/(3*t.V); for (int c = 0; c < 3; ++c) { Dual d = cst(s*(y[c]-t.X[OPP[f]][c])); d.g[c] = s; B[3*f+c] = d; } } } break;
    case ND0: for (int e = 0; e < 6; ++e) { int a = EN[e][0], b = EN[e][1]; L s = t.edge(e);
        for (int c = 0; c < 3; ++c) B[3*e+c] = (s*t.G[b][c])*m[a] + (-s*t.G[a][c])*m[b]; } break;
    }
}
inline std::vector<Dual> basis(const Sp& s, const Tet& t, const L* l) {
    int d = s.dim(); std::vector<Dual> B(size_t(s.nf())*d, cst(0));
    if (s.k == Sp::Unit) { famBasis(s.fam, t, l, B.data()); return B; }
    int io = 0, co = 0, nc = s.k == Sp::Vec ? s.n : int(s.ch.size());
    std::vector<Dual> b; 
    for (int q = 0; q < nc; ++q) {
        auto& c = *s.ch[s.k == Sp::Vec ? 0 : q]; if (!(s.k == Sp::Vec && q)) b = basis(c, t, l);
        int cn = c.nf(), cd = c.dim();
        for (int i = 0; i < cn; ++i) for (int k = 0; k < cd; ++k) B[size_t(io+i)*d + co + k] = b[size_t(i)*cd+k];
        io += cn; if (s.k != Sp::Uni) co += cd;
    }
    return B;
}
inline int dimOp(int op, int d) { return op == GRAD ? 3*d : op == DIV ? d/3 : d; }
inline bool opOk(int op, int d) { return (op != DIV && op != CURL) || d == 3; }
// values of the operator on the basis: O[i*D + k]
inline std::vector<L> opVals(int op, const Sp& s, const Tet& t, const L* l) {
    auto B = basis(s, t, l); int d = s.dim(), nf = s.nf(), D = dimOp(op, d);
    std::vector<L> O(size_t(nf)*D);
    for (int i = 0; i < nf; ++i) { const Dual* b = &B[size_t(i)*d]; L* o = &O[size_t(i)*D];
        switch (op) {
        case IDEN: for (int c = 0; c < d; ++c) o[c] = b[c].v; break;
        case GRAD: for (int c = 0; c < d; ++c) for (int j = 0; j < 3; ++j) o[3*c+j] = b[c].g[j]; break;
        case DIV: o[0] = b[0].g[0]+b[1].g[1]+b[2].g[2]; break;
        case CURL: o[0] = b[2].g[1]-b[1].g[2]; o[1] = b[0].g[2]-b[2].g[0]; o[2] = b[1].g[0]-b[0].g[1]; break;
        default: for (int c = 0; c < d; ++c) o[c] = b[c].g[op-DUDX];
        } }
    return O;
}
inline int opOrder(int op, const Sp& s) { int o = s.order(); return op == IDEN ? o : std::max(0, o-1); }

// random composed space; depth 0 gives a predefined one
inline SP randSpace(Rng& r, int depth, int maxnf = 60) {
    for (int tries = 0;; ++tries) {
        SP s;
        int k = depth <= 0 ? 0 : r.range(0, 3);
        if (k == 0 || tries > 30) s = unit(FAMS[r.range(0, 8)]);
        else if (k == 1) s = vec(r.range(1, 3), randSpace(r, depth-1, maxnf));
        else if (k == 2) { std::vector<SP> c; int n = r.range(1, 3); for (int i = 0; i < n; ++i) c.push_back(randSpace(r, depth-1, maxnf)); s = cpx(c); }
        else { std::vector<SP> c; SP a = randSpace(r, depth-1, maxnf); c.push_back(a); int n = r.range(1, 2), d = a->dim();
            for (int i = 0; i < n; ++i) for (int q = 0; q < 20; ++q) { SP b = randSpace(r, depth-1, maxnf); if (b->dim() != d) { if (b->dim() == 1 && d == 3) b = vec(3, b); else if (b->dim() == 1) b = vec(d, b); else continue; } c.push_back(b); break; }
            s = uni(c); }
        if (s->nf() <= maxnf) return s;
    }
}

// ---------------------------------------------------------------- quadrature of the model (Gauss-Legendre + Duffy)
inline void gauss01(int n, std::vector<L>& x, std::vector<L>& w) {
    x.resize(n); w.resize(n);
    for (int i = 0; i < n; ++i) {
        L z = cosl(acosl(-1.0L)*(i+0.75L)/(n+0.5L)), pp = 1;
        for (int it = 0; it < 100; ++it) { L p0 = 1, p1 = z; for (int k = 2; k <= n; ++k) { L p2 = ((2*k-1)*z*p1-(k-1)*p0)/k; p0 = p1; p1 = p2; } if (n == 1) { p0 = 1; p1 = z; }
            pp = n*(z*p1-p0)/(z*z-1); L dz = p1/pp; z -= dz; if (fabsl(dz) < 1e-19L) break; }
        x[i] = (1-z)/2; w[i] = 1/((1-z*z)*pp*pp);
    }
}
struct QP { L l[4]; L w; };
// exact for polynomials of degree <= deg; weights sum to 1. verts: vertices spanning the simplex (1..4 of them)
inline std::vector<QP> quad(int deg, const std::vector<int>& v) {
    std::vector<QP> r; int nd = int(v.size()) - 1;
    if (nd == 0) { QP q{}; q.l[v[0]] = 1; q.w = 1; r.push_back(q); return r; }
    int n = (deg + nd)/2 + 1; std::vector<L> x, w; gauss01(n, x, w);
    if (nd == 1) for (int i = 0; i < n; ++i) { QP q{}; q.l[v[0]] = 1-x[i]; q.l[v[1]] = x[i]; q.w = w[i]; r.push_back(q); }
    if (nd == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { QP q{}; L a = x[i], b = (1-a)*x[j]; q.l[v[0]] = a; q.l[v[1]] = b; q.l[v[2]] = 1-a-b; q.w = 2*w[i]*w[j]*(1-a); r.push_back(q); }
    if (nd == 3) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) { QP q{}; L a = x[i], b = (1-a)*x[j], c = (1-a-b)*x[k];
        q.l[v[0]] = a; q.l[v[1]] = b; q.l[v[2]] = c; q.l[v[3]] = 1-a-b-c; q.w = 6*w[i]*w[j]*w[k]*(1-a)*(1-a-b); r.push_back(q); }
    return r;
}
inline std::vector<int> allV() { return {0, 1, 2, 3}; }
inline std::vector<int> faceV(int f) { return {FN[f][0], FN[f][1], FN[f][2]}; }
inline std::vector<int> edgeV(int e) { return {EN[e][0], EN[e][1]}; }
// ---------------------------------------------------------------- degrees of freedom (as documented)
typedef std::function<void(const L* bary, L* out)> Fn;
// dof functionals of a predefined family applied to f with famDim components at offset co of a dim-component function
inline L famFunctional(int fam, const Tet& t, int d, const Fn& f, int dim, int co, int deg = 8) {
    std::vector<L> o(dim);
    auto pt = [&](std::initializer_list<std::pair<int, L>> b) { L l[4] = {0,0,0,0}; for (auto& q : b) l[q.first] = q.second; f(l, o.data()); return o[co]; };
    auto mean = [&](const std::vector<int>& vs, const L* dir) { L s = 0; int n = dir ? 3 : 1;
        for (auto& q : quad(deg, vs)) { f(q.l, o.data()); for (int k = 0; k < n; ++k) s += q.w*o[co+k]*(dir ? dir[k] : 1); } return s; };
    const L h3 = 1.0L/3;
    switch (fam) {
    case P0: return mean(allV(), nullptr);
    case P1: return pt({{d, 1}});
    case P2: return d < 4 ? pt({{d, 1}}) : pt({{EN[d-4][0], 0.5L}, {EN[d-4][1], 0.5L}});
    case P3: if (d < 4) return pt({{d, 1}}); if (d < 16) { int e = (d-4)/2, s = (d-4)%2; return pt({{EN[e][s], 2*h3}, {EN[e][1-s], h3}}); }
             return pt({{FN[d-16][0], h3}, {FN[d-16][1], h3}, {FN[d-16][2], h3}});
    case B2: return pt({{EN[d][0], 0.5L}, {EN[d][1], 0.5L}});
    case B4: return pt({{0, 0.25L}, {1, 0.25L}, {2, 0.25L}, {3, 0.25L}});
    case CR1: return mean(faceV(d), nullptr);
    case RT0: { L n[3]; t.normal(d, n); return mean(faceV(d), n); }
    default: { L n[3], s = t.edge(d); for (int k = 0; k < 3; ++k) n[k] = (t.X[EN[d][1]][k]-t.X[EN[d][0]][k])/s; return mean(edgeV(d), n); }
    }
}
// raw functional (for sums: of the summand itself; nested sums keep their raw functionals)
inline L rawFunctional(const Sp& s, const Tet& t, int d, const Fn& f, int dim, int co, int deg = 8) {
    if (s.k == Sp::Unit) return famFunctional(s.fam, t, d, f, dim, co, deg);
    int nc = s.k == Sp::Vec ? s.n : int(s.ch.size());
    for (int q = 0; q < nc; ++q) { auto& c = *s.ch[s.k == Sp::Vec ? 0 : q]; if (d < c.nf()) return rawFunctional(c, t, d, f, dim, co, deg); d -= c.nf(); if (s.k != Sp::Uni) co += c.dim(); }
    return NAN;
}
inline Tet refTet() { Tet t; for (auto& a : t.x) for (double& v : a) v = 0; for (int i = 0; i < 3; ++i) t.x[i+1][i] = 1; t.init(); return t; }
// Gram matrix raw_i(phi_k) on t, col-major G[i + nf*k]
inline std::vector<L> rawGram(const Sp& s, const Tet& t) {
    int nf = s.nf(), d = s.dim(); std::vector<L> G(size_t(nf)*nf);
    for (int k = 0; k < nf; ++k) { Fn f = [&](const L* l, L* o) { auto B = basis(s, t, l); for (int c = 0; c < d; ++c) o[c] = B[size_t(k)*d+c].v; };
        for (int i = 0; i < nf; ++i) G[i + size_t(nf)*k] = rawFunctional(s, t, i, f, d, 0); }
    return G;
}
inline std::vector<L> solveDense(std::vector<L> A, std::vector<L> B, int n, int m, L* rcond) {
    L pmax = 0, pmin = HUGE_VALL; std::vector<int> cp(n); for (int i = 0; i < n; ++i) cp[i] = i;
    for (int k = 0; k < n; ++k) { int pi = k, pj = k; for (int j = k; j < n; ++j) for (int i = k; i < n; ++i) if (fabsl(A[i+size_t(n)*j]) > fabsl(A[pi+size_t(n)*pj])) pi = i, pj = j;
        if (pi != k) { for (int j = 0; j < n; ++j) std::swap(A[k+size_t(n)*j], A[pi+size_t(n)*j]); for (int j = 0; j < m; ++j) std::swap(B[k+size_t(n)*j], B[pi+size_t(n)*j]); }
        if (pj != k) { for (int i = 0; i < n; ++i) std::swap(A[i+size_t(n)*k], A[i+size_t(n)*pj]); std::swap(cp[k], cp[pj]); }
        L d = A[k+size_t(n)*k]; pmax = std::max(pmax, fabsl(d)); pmin = std::min(pmin, fabsl(d)); if (d == 0) { if (rcond) *rcond = 0; return {}; }
        for (int i = k+1; i < n; ++i) { L g = A[i+size_t(n)*k]/d; if (g == 0) continue; for (int j = k; j < n; ++j) A[i+size_t(n)*j] -= g*A[k+size_t(n)*j]; for (int j = 0; j < m; ++j) B[i+size_t(n)*j] -= g*B[k+size_t(n)*j]; } }
    if (rcond) *rcond = n ? pmin/pmax : 1;
    std::vector<L> X(size_t(n)*m);
    for (int j = 0; j < m; ++j) for (int i = n-1; i >= 0; --i) { L s = B[i+size_t(n)*j]; for (int k = i+1; k < n; ++k) s -= A[i+size_t(n)*k]*X[cp[k]+size_t(n)*j]; X[cp[i]+size_t(n)*j] = s/A[i+size_t(n)*i]; }
    return X;
}
// reciprocal-condition style measure of the raw Gram matrix of a sum space; 1 for other spaces
inline L unionQuality(const Sp& s) {
    L q = 1; for (auto& c : s.ch) q = std::min(q, unionQuality(*c));
    if (s.k != Sp::Uni || q < 1e-9L) return q;
    L r = 0; solveDense(rawGram(s, refTet()), {}, s.nf(), 0, &r); return std::min(q, r);
}
inline L maxabs(const std::vector<L>& v) { L m = 0; for (L x : v) m = std::max(m, fabsl(x)); return m; }
} // namespace orc

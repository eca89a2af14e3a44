// S03: symbolic basis functions equal the numerical operators. The symbolic interface is instantiated with matrices of
// first-order dual numbers (value and gradient in physical space), a strict implementation: shapes and indices are checked.
#include "space.h"
using namespace lib;
struct Du { double v = 0, g[3] = {0, 0, 0}; Du(double a = 0) : v(a) {} };
static Du comb(double v, const Du& a, double ca, const Du& b, double cb) { Du r(v); for (int k = 0; k < 3; ++k) r.g[k] = ca*a.g[k] + cb*b.g[k]; return r; }
static Du lin(double v, const Du& a, double ca) { Du r(v); for (int k = 0; k < 3; ++k) r.g[k] = ca*a.g[k]; return r; }
static long g_ops = 0;
struct Mtx : BaseExpr {
    size_t n = 1, m = 1; std::vector<Du> a = std::vector<Du>(1);
    Mtx() {} Mtx(size_t n, size_t m) : n(n), m(m), a(n*m) {}
    static const Mtx& C(const BaseExpr& b) { return static_cast<const Mtx&>(b); }
    const Du& at(size_t i, size_t j) const { if (i >= n || j >= m) throw std::out_of_range(fmt("element (%zu,%zu) of a %zux%zu expression", i, j, n, m)); return a[i + n*j]; }
    Mtx& take(Mtx&& o) { ++g_ops; n = o.n; m = o.m; a = std::move(o.a); return *this; }
    std::shared_ptr<BaseExpr> makeExpr(size_t s1, size_t s2) const override { return std::make_shared<Mtx>(s1, s2); }
    std::shared_ptr<BaseExpr> makeCopy() const override { return std::make_shared<Mtx>(*this); }
    size_t size1() const override { return n; } size_t size2() const override { return m; }
    BaseExpr& reshape(size_t s1, size_t s2) override { if (s1*s2 != n*m) throw std::runtime_error("reshape"); n = s1; m = s2; return *this; }
    BaseExpr& set_val(double v) override { for (auto& x : a) x = Du(v); return *this; }
    BaseExpr& set_val(double* v) override { for (size_t i = 0; i < a.size(); ++i) a[i] = Du(v[i]); return *this; }
    BaseExpr& set_val(const BaseExpr& v) override { Mtx t = C(v); return take(std::move(t)); }
    BaseExpr& set_sub_matrix(const BaseExpr& v, const size_t* i, size_t ni, const size_t* j, long nj) override {
        Mtx t(ni, nj); for (long q = 0; q < nj; ++q) for (size_t p = 0; p < ni; ++p) t.a[p + ni*q] = C(v).at(i[p], j[q]); return take(std::move(t)); }
    BaseExpr& set_sub_matrix(const BaseExpr& v, size_t i0, long di, size_t j0, long dj) override {
        std::vector<size_t> I, J; if (!di) di = C(v).n; if (!dj) dj = C(v).m;
        for (long i = i0; i >= 0 && i < (long)C(v).n; i += di) I.push_back(i); for (long j = j0; j >= 0 && j < (long)C(v).m; j += dj) J.push_back(j);
        if (I.empty() || J.empty()) throw std::out_of_range(fmt("submatrix from (%zu,%zu) of a %zux%zu expression", i0, j0, C(v).n, C(v).m));
        return set_sub_matrix(v, I.data(), I.size(), J.data(), J.size()); }
    BaseExpr& set_row(const BaseExpr& v, size_t i) override { std::vector<size_t> J(C(v).m); for (size_t j = 0; j < J.size(); ++j) J[j] = j; return set_sub_matrix(v, &i, 1, J.data(), J.size()); }
    BaseExpr& set_col(const BaseExpr& v, size_t j) override { std::vector<size_t> I(C(v).n); for (size_t i = 0; i < I.size(); ++i) I[i] = i; return set_sub_matrix(v, I.data(), I.size(), &j, 1); }
    BaseExpr& set_horzcat(const BaseExpr** b, const BaseExpr** e) override { Mtx t(C(**b).n, 0); for (; b < e; ++b) { auto& o = C(**b); if (o.n != t.n) throw std::runtime_error("horzcat of different heights"); t.a.insert(t.a.end(), o.a.begin(), o.a.end()); t.m += o.m; } return take(std::move(t)); }
    BaseExpr& set_vertcat(const BaseExpr** b, const BaseExpr** e) override { size_t h = 0; for (auto p = b; p < e; ++p) h += C(**p).n; Mtx t(h, C(**b).m); size_t s = 0;
        for (; b < e; ++b) { auto& o = C(**b); if (o.m != t.m) throw std::runtime_error("vertcat of different widths"); for (size_t j = 0; j < o.m; ++j) for (size_t i = 0; i < o.n; ++i) t.a[s + i + h*j] = o.a[i + o.n*j]; s += o.n; } return take(std::move(t)); }
    template<class F> Mtx& un(const BaseExpr& x, F f) { Mtx t = C(x); for (auto& q : t.a) q = f(q); return take(std::move(t)); }
    template<class F> Mtx& bin(const BaseExpr& x, const BaseExpr& y, F f) { auto &p = C(x), &q = C(y); bool sp = p.n*p.m == 1, sq = q.n*q.m == 1;
        if (!sp && !sq && (p.n != q.n || p.m != q.m)) throw std::runtime_error(fmt("elementwise operation of %zux%zu and %zux%zu", p.n, p.m, q.n, q.m));
        Mtx t(sp ? q.n : p.n, sp ? q.m : p.m); for (size_t i = 0; i < t.a.size(); ++i) t.a[i] = f(p.a[sp ? 0 : i], q.a[sq ? 0 : i]); return take(std::move(t)); }
    static Du add(const Du& a, const Du& b) { return comb(a.v + b.v, a, 1, b, 1); } static Du sub(const Du& a, const Du& b) { return comb(a.v - b.v, a, 1, b, -1); }
    static Du mul(const Du& a, const Du& b) { return comb(a.v*b.v, a, b.v, b, a.v); } static Du dvd(const Du& a, const Du& b) { return comb(a.v/b.v, a, 1/b.v, b, -a.v/b.v/b.v); }
    template<class F> Mtx& gather(const BaseExpr** b, const BaseExpr** e, F f) { Mtx t = C(**b); for (++b; b < e; ++b) { Mtx u; u.bin(t, **b, f); t = u; } return take(std::move(t)); }
    BaseExpr& set_scal_sum(const BaseExpr** b, const BaseExpr** e, const double* c) override { Mtx t; for (int k = 0; b < e; ++b, ++k) { Mtx u; double w = c[k]; u.un(**b, [w](Du x) { return lin(w*x.v, x, w); }); if (!k) t = u; else { Mtx s; s.bin(t, u, add); t = s; } } return take(std::move(t)); }
    BaseExpr& set_sum(const BaseExpr** b, const BaseExpr** e) override { return gather(b, e, add); }
    BaseExpr& set_sum(const BaseExpr& x, const BaseExpr& y) override { return bin(x, y, add); }
    BaseExpr& set_mul(const BaseExpr** b, const BaseExpr** e) override { return gather(b, e, mul); }
    BaseExpr& set_mul(const BaseExpr& x, const BaseExpr& y) override { return bin(x, y, mul); }
    BaseExpr& set_sub(const BaseExpr& x, const BaseExpr& y) override { return bin(x, y, sub); }
    BaseExpr& set_div(const BaseExpr& x, const BaseExpr& y) override { return bin(x, y, dvd); }
    BaseExpr& set_swap_sign(const BaseExpr& x) override { return un(x, [](Du q) { return lin(-q.v, q, -1); }); }
    BaseExpr& set_abs(const BaseExpr& x) override { return un(x, [](Du q) { return lin(std::fabs(q.v), q, q.v < 0 ? -1 : 1); }); }
    BaseExpr& set_sqrt(const BaseExpr& x) override { return un(x, [](Du q) { return lin(std::sqrt(q.v), q, 0.5/std::sqrt(q.v)); }); }
    BaseExpr& set_sq(const BaseExpr& x) override { return un(x, [](Du q) { return lin(q.v*q.v, q, 2*q.v); }); }
    #define NO1(f) BaseExpr& set_##f(const BaseExpr&) override { throw std::runtime_error(#f " is not a polynomial operation"); }
    #define NO2(f) BaseExpr& set_##f(const BaseExpr&, const BaseExpr&) override { throw std::runtime_error(#f " is not a polynomial operation"); }
    NO1(exp) NO1(expm1) NO1(log) NO1(log1p) NO1(cbrt) NO1(sin) NO1(cos) NO1(tan) NO1(asin) NO1(acos) NO1(atan) NO1(sinh) NO1(cosh) NO1(tanh) NO1(erf) NO1(erfc) NO1(tgamma) NO1(lgamma) NO1(floor) NO1(ceil) NO1(not)
    NO2(atan2) NO2(fmod) NO2(hypot) NO2(lt) NO2(eq) NO2(and) NO2(or) 
    BaseExpr& set_sign(const BaseExpr& x) override { return un(x, [](Du q) { return Du((q.v > 0) - (q.v < 0)); }); }
    BaseExpr& set_pow(const BaseExpr& x, const BaseExpr& y) override { return bin(x, y, [](Du p, Du q) { return lin(std::pow(p.v, q.v), p, q.v*std::pow(p.v, q.v - 1)); }); }
    BaseExpr& set_min(const BaseExpr**, const BaseExpr**) override { throw std::runtime_error("min"); } BaseExpr& set_max(const BaseExpr**, const BaseExpr**) override { throw std::runtime_error("max"); }
    BaseExpr& set_fma(const BaseExpr& x, const BaseExpr& y, const BaseExpr& z) override { Mtx t; t.bin(x, y, mul); return bin(t, z, add); }
    BaseExpr& set_ifelse(const BaseExpr&, const BaseExpr&, const BaseExpr&) override { throw std::runtime_error("ifelse"); }
    BaseExpr& set_transpose(const BaseExpr& x) override { Mtx t(C(x).m, C(x).n); for (size_t j = 0; j < t.m; ++j) for (size_t i = 0; i < t.n; ++i) t.a[i + t.n*j] = C(x).a[j + t.m*i]; return take(std::move(t)); }
    BaseExpr& set_cross(const BaseExpr& x, const BaseExpr& y) override { auto &p = C(x), &q = C(y); if (p.n*p.m != 3 || q.n*q.m != 3 || p.n != q.n) throw std::runtime_error(fmt("cross of %zux%zu and %zux%zu", p.n, p.m, q.n, q.m));
        Mtx t(p.n, p.m); for (int i = 0; i < 3; ++i) { int j = (i+1)%3, k = (i+2)%3; t.a[i] = sub(mul(p.a[j], q.a[k]), mul(p.a[k], q.a[j])); } return take(std::move(t)); }
    BaseExpr& set_dot(const BaseExpr& x, const BaseExpr& y) override { auto &p = C(x), &q = C(y); if (p.a.size() != q.a.size()) throw std::runtime_error("dot of different sizes"); Mtx t(1, 1); for (size_t i = 0; i < p.a.size(); ++i) t.a[0] = add(t.a[0], mul(p.a[i], q.a[i])); return take(std::move(t)); }
    BaseExpr& set_norm(const BaseExpr& x) override { Mtx t; t.set_dot(x, x); return set_sqrt(t); }
    BaseExpr& set_mtimes(const BaseExpr** b, const BaseExpr** e) override { Mtx t = C(**b); for (++b; b < e; ++b) { auto& o = C(**b); if (t.m != o.n) throw std::runtime_error("mtimes"); Mtx u(t.n, o.m); for (size_t i = 0; i < u.n; ++i) for (size_t j = 0; j < u.m; ++j) for (size_t k = 0; k < t.m; ++k) u.a[i + u.n*j] = add(u.a[i + u.n*j], mul(t.a[i + t.n*k], o.a[k + o.n*j])); t = u; } return take(std::move(t)); }
    BaseExpr& set_mtimes(const BaseExpr& x, const BaseExpr& y) override { const BaseExpr* p[2] = {&x, &y}; return set_mtimes(p, p + 2); }
};
static void one(Mon& m, Rng& r, const SP& s, const std::string& fam) {
    FemSpace sp; bool raw = r.coin(); sp = raw ? makeRaw(*s) : makeAlg(*s);
    Tet t = orc::randTet(r); std::vector<double> X(4); orc::randBary(r, X.data(), true); double lmax = 1; for (double x : X) lmax = std::max(lmax, std::fabs(x));
    m.key("symbolic:" + fam); m.desc("symbolic basis of %s tet %s", s->str().c_str(), t.str().c_str()); m.distinct(s->str()); m.sample(s->str()); m.eval();
    auto ml = std::make_shared<Mtx>(4, 1), mg = std::make_shared<Mtx>(4, 3);
    for (int i = 0; i < 4; ++i) { ml->a[i] = Du(X[i]); for (int k = 0; k < 3; ++k) { ml->a[i].g[k] = double(t.G[i][k]); mg->a[i + 4*k] = Du(double(t.G[i][k])); } }
    Expr lmb(std::static_pointer_cast<BaseExpr>(ml)), grad(std::static_pointer_cast<BaseExpr>(mg));
    int nf = s->nf(), D = s->dim(); std::vector<Expr> phi;
    if (r.coin()) { phi.resize(nf); for (auto& p : phi) p = lmb.zeroes(); sp.base()->evalBasisFunctions(lmb, grad, phi.data()); } else sp.base()->evalBasisFunctions(lmb, grad, phi);
    m.obs("symbolic operations", g_ops); g_ops = 0;
    if (!m.check((int)phi.size() == nf, "symbolic:" + fam + ":count", "%zu functions of %d", phi.size(), nf)) return;
    Batch B({t}); std::string er; auto U = evalOpX(sp.getOP(IDEN), B, X, &er), Gd = evalOpX(sp.getOP(GRAD), B, X, &er);
    L ll[4]; for (int i = 0; i < 4; ++i) ll[i] = X[i];
    auto w = orc::opVals(IDEN, *s, t, ll);
    for (int i = 0; i < nf; ++i) {
        if (!m.check((int)phi[i].nrows() == D && phi[i].ncols() == 1, "symbolic:" + fam + ":shape", "function %d is %zux%zu, the space has dimension %d", i, phi[i].nrows(), phi[i].ncols(), D)) return;
        auto& q = *phi[i].target<Mtx>();
        for (int k = 0; k < D; ++k) { m.obs("values compared");
            if (!m.close(q.a[k].v, U[k + D*i], 2*opTol(IDEN, t, lmax), "symbolic:" + fam + ":value", "value (component, function)", k, i)) return;
            m.close(q.a[k].v, double(w[i*D + k]), 2*opTol(IDEN, t, lmax), "symbolic:" + fam + ":model", "value (component, function)", k, i);
            for (int d = 0; d < 3; ++d) if (!m.close(q.a[k].g[d], Gd[d + 3*k + 3*D*i], 2*opTol(GRAD, t, lmax), "symbolic:" + fam + ":grad", "derivative (3*component+direction, function)", 3*k + d, i)) return; }
    }
}
static std::string famOf(const Sp& s) { return s.k == Sp::Unit ? orc::famName(s.fam) : s.k == Sp::Vec ? "vector" : s.k == Sp::Cpx ? "product" : "union"; }
SECTION(units) { run_cases(m, m.cases(9*25, 9*400), [&](long c, Rng& r) { SP s = orc::unit(orc::FAMS[c%9]); one(m, r, s, famOf(*s)); }); }
SECTION(composed) { run_cases(m, m.cases(250, 5000), [&](long, Rng& r) { SP s; do s = orc::randSpace(r, r.range(1, 3), 60); while (s->has(Sp::Uni) && orc::unionQuality(*s) < 1e-6L); one(m, r, s, famOf(*s)); }); }
